From d06783c0afa3f9acdd012ba26722a387288f083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 01/41] fix: compute the slab geometry right-hand side (it
 returned dV/dt = V)

---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 4bf9059..486a00a 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -363,6 +363,12 @@ class rhs_class():
                     
                     V_new[angle,space,:] = RHS  
 
+                elif self.geometry['slab'] == True:
+                    if self.source_type[4] == 1: # Make MMS source
+                        source.make_source_not_isotropic(t, mul, xL, xR)
+                        S = source.S
+                    V_new[angle,space,:] = np.dot(G,U) - LU + mul*np.dot(L,U) - VV + PV + 0.5*S
+
         return V_new.reshape((self.N_ang) * self.N_space * (self.M+1))
         
     
-- 
2.43.0


From e738cd957af4616994128d8cfe37247a2413ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 02/41] fix: remember the initial edges of linearly moving slab
 meshes (plane pulse mesh collapsed to a point at t=0)

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index ac29274..eef0ee5 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -497,7 +497,7 @@ class mesh_class(object):
                 self.edges = np.linspace(-self.x0, self.x0, self.N_space+1)
             elif self.geometry['sphere'] == True:
                 self.edges = np.linspace(0, self.x0, self.N_space+1)
-                self.edges0 = self.edges
+            self.edges0 = self.edges
             self.Dedges = self.edges/self.edges[-1] * self.speed
             self.Dedges_const = self.Dedges
             if self.source_type[0] == 2:
-- 
2.43.0


From 6d8d0a0c35eb2d335243d5b6c295943d36b3be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 03/41] fix: move the mesh of Gaussian and self-similar
 problems at the velocity it reports, and give MMS a mesh

---
 moving_mesh_transport/solver_classes/mesh.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index eef0ee5..ced7f4b 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -170,7 +170,7 @@ class mesh_class(object):
                 # if t > 10.0:
                 #     self.Dedges = self.edges/self.edges[-1] * self.speed
 
-            if self.source_type[0] == 1 or self.source_type[0]==2:
+            if self.source_type[0] != 0 or self.source_type[3] == 1 or self.source_type[4] == 1 or self.source_type[5] == 1:
 
                 self.edges = self.edges0 + self.Dedges_const*t
 
@@ -434,6 +434,7 @@ class mesh_class(object):
             # right_edge = self.x0 + self.tfinal
 
         self.edges = np.linspace(-right_edge, right_edge, self.N_space + 1)
+        self.edges0 = self.edges
         self.Dedges = self.edges * 0
 
 
@@ -801,13 +802,13 @@ class mesh_class(object):
         """
         print('initializing mesh')
         # if self.problem_type in ['plane_IC']:
-        if self.source_type[0] == 1 or self.source_type[0] == 2:
+        if self.source_type[0] != 0:
             self.simple_moving_init_func()
 
         if self.thick == False:     # thick and thin sources have different moving functions
 
             # if self.problem_type in ['gaussian_IC', 'gaussian_source']:
-            if self.source_type[3] == 1 or self.source_type[5] == 1:
+            if self.source_type[3] == 1 or self.source_type[4] == 1 or self.source_type[5] == 1:
                 self.simple_moving_init_func()
             # elif self.problem_type in ['square_IC', 'square_source']:
             elif self.source_type[1] == 1 or self.source_type[2] == 1:
-- 
2.43.0


From dc41c64c7dec20d5cf9bf9fe39bf7d4fb213a926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 04/41] fix: move the infinite-domain square source mesh (it
 stayed at its initial width while reporting a velocity)

---
 moving_mesh_transport/solver_classes/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index ced7f4b..b07d9da 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -176,7 +176,7 @@ class mesh_class(object):
 
 
 
-            elif self.source_type[1] == 1:
+            elif self.source_type[1] == 1 or (self.source_type[2] == 1 and self.finite_domain == False and self.move_func == 0):
                 if self.finite_domain == True and t == self.tfinal:
 
                 # print(self.edges0[-1] + t * self.speed, "###### final edge ######")
@@ -197,7 +197,7 @@ class mesh_class(object):
 
            
 
-            elif (self.source_type[2] == 1 or self.source_type[1] == 1) and self.finite_domain == True: #or self.source_type[0]!=0:
+            elif self.source_type[2] == 1: #or self.source_type[0]!=0:
                 # self.finite_domain = True # what is the deal with this?
                 if (self.finite_domain == True) and (self.edges[-1] >= self.domain_width/2 or abs(self.edges[-1]-self.domain_width/2)<=1e-2):
                         self.edges = self.edges
-- 
2.43.0


From 0e4b02edd09a341ca3b306d55b0aa09da4a2fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 05/41] fix: finite-domain square pulse mesh depends on the
 time only (it stuck after one late evaluation and jumped at tfinal)

---
 moving_mesh_transport/solver_classes/mesh.py | 24 ++++++++------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index b07d9da..10792ab 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -177,21 +177,15 @@ class mesh_class(object):
 
 
             elif self.source_type[1] == 1 or (self.source_type[2] == 1 and self.finite_domain == False and self.move_func == 0):
-                if self.finite_domain == True and t == self.tfinal:
-
-                # print(self.edges0[-1] + t * self.speed, "###### final edge ######")
-                
-                # if self.edges0[-1] + t * self.speed > 5 and self.finite_domain == True:
-                    self.edges = np.linspace(-self.domain_width/2, self.domain_width/2, self.N_space+1)
-                    
-
-                elif (self.finite_domain == True) and (self.edges[-1] >= self.domain_width/2 or abs(self.edges[-1]-self.domain_width/2)<=1e-2):
-                    self.edges = self.edges
-                    self.Dedges = self.Dedges_const*0
-                else:
-                    # print(self.edges0, 'edges0')
-                    self.edges = self.edges0 + self.Dedges_const*t
+                t_move = t
+                if self.finite_domain == True:
+                    # the mesh stops when its outermost edge reaches the domain boundary
+                    t_move = min(t, max(0.0, (self.domain_width/2 - self.edges0[-1]) / self.Dedges_const[-1]))
+                self.edges = self.edges0 + self.Dedges_const*t_move
+                if t_move == t:
                     self.Dedges = self.Dedges_const
+                else:
+                    self.Dedges = self.Dedges_const*0
 
                     # print(self.Dedges_const*t, 'dedges times t')
 
@@ -870,6 +864,8 @@ class mesh_class(object):
             if self.thick == True:
                 self.delta_t = self.tfinal 
             self.move(self.tfinal)
+            if self.finite_domain == True and self.source_type[1] == 1:
+                self.edges = np.linspace(-self.domain_width/2, self.domain_width/2, self.N_space+1)
             self.Dedges = self.Dedges*0
             self.moving = False
             # self.edges[-1] = self.x0 + self.tfinal * self.speed
-- 
2.43.0


From 0bf6d7cdf0f210b3381c9a8d0103039407f1f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 06/41] fix: finite-domain square source mesh uses its constant
 velocity before the source turns off, whatever was evaluated earlier

---
 moving_mesh_transport/solver_classes/mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 10792ab..53fcaf8 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -224,7 +224,8 @@ class mesh_class(object):
 
                             elif (t < self.t0):
                             
-                                self.edges = self.edges0 + self.Dedges*t
+                                self.edges = self.edges0 + self.Dedges_const*t
+                                self.Dedges = self.Dedges_const
 
 
                             # self.Dedges = self.Dedges_const
-- 
2.43.0


From 342c87efd2c8872f3eb9e1fda497509ad32130b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 07/41] fix: static finite-domain shell mesh must not get
 negative radii

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 53fcaf8..10d2f25 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -865,7 +865,7 @@ class mesh_class(object):
             if self.thick == True:
                 self.delta_t = self.tfinal 
             self.move(self.tfinal)
-            if self.finite_domain == True and self.source_type[1] == 1:
+            if self.finite_domain == True and self.source_type[1] == 1 and self.geometry['slab'] == True:
                 self.edges = np.linspace(-self.domain_width/2, self.domain_width/2, self.N_space+1)
             self.Dedges = self.Dedges*0
             self.moving = False
-- 
2.43.0


From 5340ea35a2f0781ca2b5486267e496bfe611316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 08/41] fix: evaluate the uncollided exit flux at the two
 boundary points (broadcast error with the uncollided solution on)

---
 moving_mesh_transport/solver_classes/make_phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/make_phi.py b/moving_mesh_transport/solver_classes/make_phi.py
index dc67814..3b7f87e 100644
--- a/moving_mesh_transport/solver_classes/make_phi.py
+++ b/moving_mesh_transport/solver_classes/make_phi.py
@@ -107,7 +107,7 @@ class make_output:
         self.exit_dist = psi
         output = np.sum(np.multiply(psi.transpose(), self.ws), axis = 1)
         if self.uncollided == True:
-            uncol = uncollided_solution.uncollided_solution(self.xs, self.t)
+            uncol = uncollided_solution.uncollided_solution(x_eval, self.t)
             output += uncol
         return self.exit_dist, output
         
-- 
2.43.0


From e068acbf99a1b9fad005868565c5cfb1b334d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 09/41] fix: pass the geometry to find_nodes on the eval_times
 path

---
 moving_mesh_transport/solver_functions/main_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index 969915a..06a525f 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -258,7 +258,7 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
             mesh.move(tt)
             edges = mesh.edges
             if choose_xs == False:
-                xs = find_nodes(edges, M)
+                xs = find_nodes(edges, M, geometry)
             elif choose_xs == True:
                 xs = specified_xs
             output = make_output(tt, N_ang, ws, xs, sol.y[:,it].reshape((N_ang+extra_deg_freedom,N_space,M+1)), M, edges, uncollided, geometry)
-- 
2.43.0


From 6647c838aa43244f1ea59022abe50fceba31b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 10/41] fix: reset the absorption vector for every angle and
 cell (it accumulated over all earlier calls with a non-constant opacity)

---
 moving_mesh_transport/solver_classes/opacity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 930b17f..73af888 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -168,6 +168,7 @@ class sigma_integrator():
         if self.sigma_func['constant'] == True:
             self.VV = u * self.sigma_t
         else:
+            self.VV = np.zeros(self.M + 1)
             for i in range(self.M + 1):
                 for j in range(self.M + 1):
                     for k in range(self.Msigma + 1):
-- 
2.43.0


From e550e11dce61e3842afa57c98813d371080bb520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 11/41] fix: recompute the moments of the time-dependent Sedov
 opacity at every time (a static mesh kept the first ones)

---
 moving_mesh_transport/solver_classes/opacity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 73af888..2158325 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -62,8 +62,8 @@ class sigma_integrator():
         self.VP = np.zeros(self.M+1)
         self.AAA = np.zeros((self.M+1, self.M + 1, self.Msigma + 1))
         self.moving = False
-        # if self.sigma_func['fake_sedov'] == True:
-        #     self.moving = True
+        if self.sigma_func['constant'] != 1 and self.sigma_func['fake_sedov'] == True:
+            self.moving = True
         # self.sigma_v = 0.005
         self.sigma_v = build.fake_sedov_v0
 
-- 
2.43.0


From 312e1b047cac2c47475431ad7bc5eb286d7daf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 12/41] fix: name the Sedov opacity flag in
 mesh_parameters.yaml as the code reads it (KeyError with any non-constant
 opacity)

---
 moving_mesh_transport/input_scripts/mesh_parameters.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/input_scripts/mesh_parameters.yaml b/moving_mesh_transport/input_scripts/mesh_parameters.yaml
index 4632cb4..a333e68 100644
--- a/moving_mesh_transport/input_scripts/mesh_parameters.yaml
+++ b/moving_mesh_transport/input_scripts/mesh_parameters.yaml
@@ -25,7 +25,7 @@
 'boundary_source_strength': 1.0
 'boundary_source': False
 'boundary_source_loc': [10,0]
-'sigma_func': {constant: True,linear: False, siewert1: False, siewert2: False, gaussian: False, f_sedov: False} # [constant, gaussian, siewert s = 1, siewert s = infty, Fake Sedov]
+'sigma_func': {constant: True,linear: False, siewert1: False, siewert2: False, gaussian: False, fake_sedov: False} # [constant, gaussian, siewert s = 1, siewert s = infty, Fake Sedov]
 'Msigma': 0
 'fake_sedov_v0': 0.005
 
-- 
2.43.0


From 12ba5cb6860ed7d3b0a2701cfb95719d9c5180fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 13/41] fix: weights of the two-point Gauss-Lobatto rule (they
 were zero)

---
 .../solver_classes/functions.py               | 1477 +++++++++--------
 1 file changed, 739 insertions(+), 738 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index ab5066f..26fb20e 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -1,738 +1,739 @@
-from numba import njit, types, prange
-# import quadpy
-import ctypes
-from numba.extending import get_cython_function_address
-import numpy as np
-import math
-from scipy.special import expi
-import matplotlib.pyplot as plt
-from ..plots.plot_functions.show import show
-import numpy.polynomial as poly
-from functools import partial
-from scipy.special import roots_legendre
-import numpy.polynomial as poly
-import scipy.special as sps
-
-
-
-@njit 
-def integrate_quad(a, b, xs, ws, func1, func2):
-    return (b-a)/2 * np.sum(ws * func1((b-a)/2*xs + (a+b)/2) * func2((b-a)/2*xs + (a+b)/2))
-
-_dble = ctypes.c_double
-addr = get_cython_function_address("scipy.special.cython_special", "__pyx_fuse_0_1eval_legendre")
-functype = ctypes.CFUNCTYPE(_dble, _dble, _dble)
-eval_legendre_float64_fn = functype(addr)
-
-# @njit("float64[:](float64,float64[:])")  
-@njit
-def numba_eval_legendre_float64(n, x):
-      return eval_legendre_float64_fn(n, x)
-  
-addr = get_cython_function_address("scipy.special.cython_special", "__pyx_fuse_1expi")
-functype = ctypes.CFUNCTYPE(_dble, _dble)
-expn_fn = functype(addr)
-
-@njit("float64(float64)")
-def numba_expi(x):
-    return expn_fn(x)
-
-# @njit("float64[:](float64,float64[:],float64,float64)", looplift=False, parallel=False)
-@njit('float64[:](int64, float64[:], float64, float64)')
-def normPn(n,x,a=-1.0,b=1.0):
-    tmp = 0*x
-    for count in prange(x.size):
-        z = (b+a-2*x[count])/(a-b)
-        fact = np.sqrt((2*n+1)/(b-a)) #*(x>=a)*(x<=b)
-        # tmp[count] = sc.eval_legendre(n,z)*fact
-        tmp[count] = numba_eval_legendre_float64(n, z)
-    return tmp * fact
-
-
-
-@njit('float64[:](int64, float64[:], float64, float64)')
-def Pn(n,x,a=-1.0,b=1.0):
-    tmp = 0*x
-    for count in prange(x.size):
-        z = x[count]
-        # tmp[count] = sc.eval_legendre(n,z)*fact
-        tmp[count] = numba_eval_legendre_float64(n, z)
-    return tmp
-@njit('float64(int64, float64, float64, float64)')
-def normPn_scalar(n,x,a=-1.0,b=1.0):
-    tmp = 0.0
-    z = (b+a-2*x)/(a-b)
-    fact = np.sqrt((2*n+1)/(b-a)) #*(x>=a)*(x<=b)
-    # tmp[count] = sc.eval_legendre(n,z)*fact
-    tmp = numba_eval_legendre_float64(n, z)
-    return tmp * fact
-@njit('float64(int64, float64, float64, float64)')
-def Pn_scalar(n,x,a=-1.0,b=1.0):
-    tmp = 0.0
-    z = x
-
-    # tmp[count] = sc.eval_legendre(n,z)*fact
-    tmp = numba_eval_legendre_float64(n, z)
-    return tmp 
-
-@njit
-def dx_normPn(n, x, a = -1.0, b = 1.0):
-    tmp = 0*x
-    fact = np.sqrt((2*n+1)/(b-a))
-    for count in prange(x.size):
-        z = (b+a-2*x[count])/(a-b)
-        if n == 0:
-            tmp[count] = 0.0
-        elif n == 1:
-            tmp[count] = 1.0
-        elif n == 2:
-            tmp[count] = 3*z
-        elif n == 3:
-            tmp[count] = (-3 + 15*z**2)/2.
-        elif n == 4:
-            tmp[count] = (-60*z + 140*z**3)/8.
-        elif n == 5:
-            tmp[count] = (15 - 210*z**2 + 315*z**4)/8.
-        elif n == 6:
-            tmp[count] = (210*z - 1260*z**3 + 1386*z**5)/16.
-        elif n == 7:
-            tmp[count] = (-35 + 945*z**2 - 3465*z**4 + 3003*z**6)/16.
-        elif n == 8:
-            tmp[count] = (-2520*z + 27720*z**3 - 72072*z**5 + 51480*z**7)/128.
-        elif n == 9:
-            tmp[count] = (315 - 13860*z**2 + 90090*z**4 - 180180*z**6 + 109395*z**8)/128.
-        elif n == 10:
-            tmp[count] = (6930*z - 120120*z**3 + 540540*z**5 - 875160*z**7 + 461890*z**9)/256.
-        elif n == 11:
-            tmp[count] = (-693 + 45045*z**2 - 450450*z**4 + 1531530*z**6 - 2078505*z**8 + 969969*z**10)/256.
-
-
-    return tmp * fact
-
-
-
-
-# @njit("float64[:](int64, float64[:], float64[:], float64[:,:,:], int64, float64[:,:])", parallel = True, looplift = True, fastmath = True)
-def make_phi(N_ang, ws, xs, u, M, edges):
-    output = xs*0
-    psi = np.zeros((N_ang, xs.size))
-    for ang in range(N_ang):
-        for count in range(xs.size):
-            idx = np.searchsorted(edges[:], xs[count])
-            if (idx == 0):
-                idx = 1
-            if (idx >= edges.size):
-                idx = edges.size - 1
-            for i in range(M+1):
-                psi[ang, count] += u[ang,idx-1,i] * normPn(i,xs[count:count+1],float(edges[idx-1]),float(edges[idx]))[0]
-    output = np.sum(np.multiply(psi.transpose(), ws), axis = 1)
-    return output
-@njit 
-def surf_func(speed,u,space,j,side,xL,xR,N_space):
-#    print(side)
-    if j ==0:
-        B_right = 1/math.sqrt(xR-xL)
-        B_left = 1/math.sqrt(xR-xL)
-    else:
-         B_right = math.sqrt(2*j+1)/math.sqrt(xR-xL)
-         if j%2 ==0:
-                B_left = math.sqrt(2*j+1)/math.sqrt(xR-xL)
-         else:
-                B_left = -math.sqrt(2*j+1)/math.sqrt(xR-xL)
-    if speed == 0:
-        return 0
-    elif speed > 0 and side == "R":
-        return u[space,j]*B_right
-    elif speed > 0 and side =="L":
-        if space !=0:
-#            print(u[k-1,j])
-            return u[space-1,j]*B_right 
-        else:
-            return 0
-    elif speed < 0 and side =="R":
-        if space != N_space-1:
-            return u[space+1,j]*B_left
-        else:
-            return 0
-    elif speed < 0 and side =="L":
-        return u[space,j]*B_left
-
-@njit
-def LU_surf_func(u,space,N_space,mul,M,xL,xR,dxL,dxR):
-    sumright = 0
-    sumleft = 0
-    rightspeed = mul - dxR
-    leftspeed = mul-dxL
-    for j in range(0,M+1):
-        sumright += surf_func(rightspeed,u,space,j,"R",xL,xR,N_space)
-        sumleft += surf_func(leftspeed,u,space,j,"L",xL,xR,N_space)
-    LU = np.zeros(M+1).transpose()
-    for i in range(0,M+1):
-        if i == 0:
-            B_right = 1/math.sqrt(xR-xL)
-            B_left = 1/math.sqrt(xR-xL)
-        elif j>0:
-            B_right = math.sqrt(2*i+1)/math.sqrt(xR-xL)
-            if i%2 ==0:
-                B_left = math.sqrt(2*i+1)/math.sqrt(xR-xL)
-            else: 
-                B_left = -math.sqrt(2*i+1)/math.sqrt(xR-xL)
-        LU[i] = rightspeed*B_right*(sumright) - leftspeed*B_left*(sumleft)
-    return LU 
-
-def find_nodes(edges, M, geometry):
-    # scheme = quadpy.c1.gauss_legendre(M+1)
-    if M == 0:
-        M = 1
-    if geometry['slab'] == True:
-        xs_quad, ws_quad = poly.legendre.leggauss(M)
-        # xs_quad = scheme.points
-        ixx = xs_quad.size
-        xs_list = np.zeros(ixx*(edges.size-1))
-        for k in range(edges.size-1):
-            xL = edges[k]
-            xR = edges[k+1]
-            xs_list[k*ixx:(k+1)*ixx] = xL + (xs_quad + 1)*(xR - xL)/2
-    
-    elif geometry['sphere'] == True:
-        xs_quad, ws_quad = quadrature(M, 'chebyshev')
-        ixx = xs_quad.size
-        xs_list = np.zeros(ixx*(edges.size-1))
-        for k in range(edges.size-1):
-            xL = edges[k]
-            xR = edges[k+1]
-            xs_list[k*ixx:(k+1)*ixx] = np.sort(xL + (xs_quad + 1)*(xR - xL)/2)
-
-    return xs_list
-
-def convergence(err1, x1, err2, x2):
-    return -math.log(err2/err1)/math.log(x2/x1)
-@njit
-def f1(t, tau, x0):
-    return -x0 * numba_expi(tau-t)
-@njit    
-def f2(t, tau, x0, x):
-    if tau != t:
-        return 0.5*((-x0 + abs(x)) * numba_expi(tau-t) + math.exp(tau - t))
-    else:
-        return 0.5 
-@njit
-def f3(t, tau, x0, x):
-    return math.exp(tau-t)
-@njit
-def uncollided_square_s2(x, t, x0, t0):
-    t_ceiling = min(t,t0)
-    if t > 0:
-        tau_1 = 0.0
-        end = min(t_ceiling, t - abs(x) + x0)
-        if end <= 0.0:
-            return 0.0
-        tau_2 = min(end, t - x0 - abs(x))
-        if tau_2 < 0.0:
-            tau_2 = 0.0
-        tau_3 = min(end, t - x0 + abs(x))
-        if tau_3 < 0.0:
-            tau_3 = 0.0
-        tau_4 = end
-        if tau_4 < 0.0:
-            tau_4 = 0.0
-        t1 = f1(t, tau_2, x0) - f1(t, tau_1, x0)
-        t2 = f2(t, tau_3, x0, x) - f2(t, tau_2, x0, x)
-        t3 = f3(t, tau_4, x0, x) - f3(t, tau_3, x0, x)
-        
-        return t1 + t2 + t3
-    else:
-        return 0.0
-
-@njit
-def s2_F(t,tau):
-    """ integrand for uncollided square s2
-    """
-    return 0.5 * math.exp(-t + tau)
-
-@njit 
-def uncollided_su_olson_s2(x,t,x0,t0):
-    sqrt3 = math.sqrt(3)
-    abx = abs(x)
-    edge = min(t,t0)
-    if t <= t0:
-        if (abx > x0):
-            arg1 = max(0,edge - sqrt3 * (abx - x0))
-            arg2 = max(0,edge - sqrt3 * (abx + x0))
-            # arg2 = max(arg2, edge)
-            # arg2 = min(arg2,t0)
-            # arg1 = min(arg2,t0)
-            return s2_F(t, arg1) - s2_F(t, arg2)
-        
-        elif (abx <= x0):
-            if (edge + sqrt3 * abx <= sqrt3 * x0):
-                return  2 * (s2_F(t, edge) - s2_F(t, 0))
-            elif (edge + sqrt3 * abx > sqrt3 * x0) and (edge - sqrt3 * (abx + x0) > 0):
-                arg2 = edge - sqrt3 * (x0 - abx)
-                arg1 = edge - sqrt3 * (abx + x0)
-                if arg1 <0 or arg2 <0:
-                    print("error negative bounds")
-                return s2_F(t, arg2) - s2_F(t, arg1) + 2 * (s2_F(t, edge) - s2_F(t, arg2))
-            elif (edge + sqrt3 * abx > sqrt3 * x0) and (edge - sqrt3 * (abx + x0) <= 0): 
-                arg1 = max(0,edge - sqrt3 * (x0 - abx))
-                if arg1 <0:
-                    print("error negative bounds")
-                return 2 * (s2_F(t, edge) - s2_F(t, arg1)) + s2_F(t, arg1) - s2_F(t, 0)
-            else:
-                print("missed case")
-    elif t > t0:
-        T0 = edge
-        x = abs(x)
-        if x0 - math.sqrt(3)*(t-T0)/3.0 <= x <= x0 + math.sqrt(3)*(t-T0)/3.0:
-            arg = max(t - (x-x0)*3/math.sqrt(3),0)
-            argp = min(arg, T0)
-            arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
-            arg2p = min(arg2, T0)
-            return s2_F(t,  argp)   - s2_F(t, arg2p) 
-        # elif x <= x0 + math.sqrt(3)*(t-T0)/3.0 and x >= x0 - math.sqrt(3)*(t-T0)/3.0:
-        #     arg = min(t - (x-x0)*3/math.sqrt(3),T0)
-        #     arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
-        #     return s2_F(t,  arg)   - s2_F(t, arg2) 
-
-            
-        elif x > x0 + math.sqrt(3)*(t-T0)/3.0:
-            arg = max(t - (x-x0)*3/math.sqrt(3),0)
-            arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
-            arg = min(arg, edge)
-            arg2 = min(arg2, edge)
-            print(arg, arg2)
-            print('here')
-            return s2_F(t,  arg) - s2_F(t, arg2)
-
-        # elif x < x0 + math.sqrt(3)*(t-T0)/3.0:
-            
-        elif x < x0 - math.sqrt(3)*(t-T0)/3.0:
-            arg = t - (x0-x)*3/math.sqrt(3)
-            if t - (x0-x)*3/math.sqrt(3) <= 0:
-                return  2*(s2_F(t,  T0) - s2_F(t, 0))
-            elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
-                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, 0)
-            else:
-                return 0
-         
-def su_olson_s2_integrand(tau,x,t,x0,t0):
-    return  (np.exp(-t + tau)*(-np.heaviside((-3*x - 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) - np.heaviside((3*x - 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) + np.heaviside((-3*x + 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) + np.heaviside((3*x + 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1)))/2.
-    
-            
-@njit
-def uncollided_s2_gaussian(x,t,sigma,t0):
-    tf = min(t,t0)
-
-    return (math.exp(-(math.sqrt(3)*x) + (3*sigma**2)/4.)*math.sqrt(3*math.pi)*sigma*(math.erf((-2*t + 2*tf + 2*math.sqrt(3)*x - 3*sigma**2)/(2.*math.sqrt(3)*sigma)) + math.exp(2*math.sqrt(3)*x)*(math.erf(t/(math.sqrt(3)*sigma) + x/sigma + (math.sqrt(3)*sigma)/2.) - math.erf((2*t - 2*tf + 2*math.sqrt(3)*x + 3*sigma**2)/(2.*math.sqrt(3)*sigma))) + math.erf((2*math.sqrt(3)*t - 6*x + 3*math.sqrt(3)*sigma**2)/(6.*sigma))))/4.
-
-    
-@njit
-def uncollided_s2_gaussian_thick(x,t,sigma,t0):
-    return (6*t**5 + t**6 + 12*t**3*(10 + 15*x**2 - 3*sigma**2) + 3*t**4*(10 + 15*x**2 - 3*sigma**2) +  18*t*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) +  9*t**2*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) - 9*(-80 - 3*x**2*(40 + 10*x**2 + x**4) + 24*sigma**2 + 9*x**2*(4 + x**2)*sigma**2 - 6*(2 + 3*x**2)*sigma**4 + 18*sigma**6) + math.exp(t0)*(-t**6 + 6*t**5*(-1 + t0) + 6*t0**5 - t0**6 + 12*t0**3*(10 + 15*x**2 - 3*sigma**2) - 3*t0**4*(10 + 15*x**2 - 3*sigma**2) - 3*t**4*(10 + 5*(-2 + t0)*t0 + 15*x**2 - 3*sigma**2) + 4*t**3*(-30 + 5*t0*(6 + (-3 + t0)*t0) + 45*(-1 + t0)*x**2 - 9*(-1 + t0)*sigma**2) + 18*t0*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) - 9*t0**2*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) + 9*(-80 - 3*x**2*(40 + 10*x**2 + x**4) + 24*sigma**2 + 9*x**2*(4 + x**2)*sigma**2 - 6*(2 + 3*x**2)*sigma**4 + 18*sigma**6) - 3*t**2*(5*(24 + t0*(-24 + t0*(12 + (-4 + t0)*t0))) + 45*x**4 - 18*(2 + (-2 + t0)*t0)*sigma**2 + 18*sigma**4 + 18*x**2*(10 + 5*(-2 + t0)*t0 - 3*sigma**2)) + 6*t*(-120 + t0*(120 + t0*(-60 + t0*(20 + (-5 + t0)*t0))) + 45*(-1 + t0)*x**4 - 6*(-6 + t0*(6 + (-3 + t0)*t0))*sigma**2 + 18*(-1 + t0)*sigma**4 + 6*x**2*(-30 + 5*t0*(6 + (-3 + t0)*t0) - 9*(-1 + t0)*sigma**2))))/(162.*math.exp(t)*sigma**6)
-
-@njit        
-def problem_identifier(source_type):
-    if source_type[0] == 1:
-        problem_type = 'plane_IC'
-    elif source_type[1] == 1:
-        problem_type = 'square_IC'
-    elif source_type[2] == 1:
-        problem_type = 'square_source'
-    elif source_type[3] == 1:
-        problem_type = 'gaussian_IC'
-    elif source_type[4] == 1:
-        problem_type = 'gaussian_source'
-
-    else:
-        problem_type =='none'
-    return problem_type
-
-
-# xs  = np.linspace(-1.5,1.5, 100)
-# phi = xs*0
-# phi_u = xs*0
-# tf = 1.0
-# expi1 = xs*0
-# expi2 = xs*0
-
-# for i in range(len(xs)):
-#     expi1[i] = numba_expi(xs[i])
-#     expi2[i] = expi(xs[i])
-
-#     # phi_u[i] = uncollided_square_s2(xs[i], tf, 0.5, tf)
-# plt.figure(1)
-
-# plt.plot(xs, expi1, "--")
-# plt.plot(xs, expi2, ":")
-
-@njit
-def uncollided_su_olson_s2_2(x,t,x0,t0):
-    T0 = min(t, t0)
-    if t > t0:
-        x = abs(x)
-        if x0 - math.sqrt(3)*(t-T0)/3.0 <= abs(x) <= x0 + math.sqrt(3)*(t-T0)/3.0:
-            arg = max(T0 - (abs(x)-x0)*3/math.sqrt(3),0)
-            return s2_F(t,  T0) - s2_F(t, 0) 
-        
-        
-        if abs(x) < x0 - math.sqrt(3)*(t-T0)/3.0:
-            arg = t - (x0-x)*3/math.sqrt(3)
-            
-            if t - (x0-x)*3/math.sqrt(3) <= 0:
-                return  2*(s2_F(t,  T0) - s2_F(t, 0))
-            
-            
-            elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
-                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, 0)
-            
-            
-
-            
-        elif x > x0 + math.sqrt(3)*(t-T0)/3.0:
-            arg = max(t - (x-x0)*3/math.sqrt(3),0)
-            return s2_F(t,  arg) - s2_F(t, 0) 
-       
-        
-    else:
-        return 0.0
-
-def test_s2_sol(t = 10, t0 = 10):
-    import scipy.integrate as integrate
-    
-    # xs = np.linspace(0, t+0.5, 500)
-    xs = np.linspace(50,60, 500)
-    phi = xs*0
-    phi_test = xs*0
-    phi_exact = xs*0
-    x0 = 0.5 
-    for ix in range(xs.size):
-        phi[ix] = uncollided_su_olson_s2(xs[ix],t, x0, t0)
-        # phi_test[ix] = uncollided_su_olson_s2_2(xs[ix],t, x0, t0)
-        phi_exact[ix] = integrate.quad(su_olson_s2_integrand, 0, min(t,t0), args = (xs[ix],t,x0,t0))[0]
-    
-    # plt.plot(xs, phi, '-ob')
-    # plt.plot(xs, phi_exact, '-k')
-    # plt.plot(xs, phi_test, '-or', mfc = 'none')
-    # plt.axvline(x = x0 + math.sqrt(3)*(t-t0)/3.0, color = 'r')
-    # t - (x0-x)*3/math.sqrt(3)
-    
-    print(np.sqrt(np.mean(phi_exact-phi)**2), 'RMSE')
-    # show('uncollided_su_olson_s2_t_10')
-    # plt.show()
-
-def test_square_sol(t = 31.6228, t0 = 10):
-    import scipy.integrate as integrate
-    
-    xs = np.linspace(0, 20, 1000)
-    phi = xs*0
-    phi_test = xs*0
-    phi_exact = xs*0
-    x0 = 0.5
-    for ix in range(xs.size):
-        phi[ix] = uncollided_square_s2(xs[ix],t, x0, t0)
-
-    
-    # plt.plot(xs, phi, '-ob')
-    # plt.plot(xs, phi, '-k')
-    # plt.plot(xs, phi_test, '-or', mfc = 'none')
-    
-    # show('uncollided_square_s2t')
-    # plt.show()
-
-# def time_step_counter(t, division):
-@njit    
-def heaviside_vector(x):
-    return_array = np.ones(x.size)
-    for ix, xx in enumerate(x):
-        if xx < 0:
-            return_array[ix] = 0.0
-    return return_array
-    
-@njit    
-def heaviside_scalar(x):
-    returnval = 1.0
-    if x < 0:
-        returnval = 0.0
-    return returnval
-    
-@njit
-def shaper(angles, spaces, M, thermal):
-    if thermal == True:
-        return np.array([angles + 1 , spaces, M+1])
-    else:
-        return np.array([angles, spaces, M+1])
-    
-@njit 
-
-def eval_Tn(n,x):
-    if n == 0:
-        return  1 + x*0 
-    elif n == 1:
-        return x
-    elif n == 2:
-        return -1 + 2*x**2
-    elif n == 3:
-        return -3*x + 4*x**3
-    elif n == 4:
-        return 1 - 8*x**2 + 8*x**4
-    elif n == 5:
-        return 5*x - 20*x**3 + 16*x**5
-    elif n == 6:
-        return -1 + 18*x**2 - 48*x**4 + 32*x**6
-    elif n == 7:
-        return -7*x + 56*x**3 - 112*x**5 + 64*x**7
-    elif n == 8:
-        return 1 - 32*x**2 + 160*x**4 - 256*x**6 + 128*x**8
-    elif n == 9:
-        return 9*x - 120*x**3 + 432*x**5 - 576*x**7 + 256*x**9
-    elif n == 10:
-        return -1 + 50*x**2 - 400*x**4 + 1120*x**6 - 1280*x**8 + 512*x**10
-    elif n == 11:
-        return -11*x + 220*x**3 - 1232*x**5 + 2816*x**7 - 2816*x**9 + 1024*x**11
-    elif n == 12:
-        return 1 - 72*x**2 + 840*x**4 - 3584*x**6 + 6912*x**8 - 6144*x**10 + 2048*x**12
-    elif n > 12:
-        print('not implemented to this order yet')
-        assert(0)
-
-@njit('float64(int64)')
-def kronecker(i):
-    if i == 0:
-        return 1.0
-    else:
-        return 0.0
-    
-@njit('float64[:](int64, float64[:], float64, float64)')
-def normTn(n,x,a=0,b=1.0):
-    tmp = 0*x
-    norm = (1/ math.sqrt(2))**kronecker(n) * math.sqrt(1/(b-a)) * math.sqrt(2) / math.sqrt(math.pi) 
-    for count in prange(x.size):
-        xx = x[count]
-        # tmp[count] = sc.eval_legendre(n,z)*fact
-        z = 2/(b - a) * xx - (b + a)/(b - a)
-
-        tmp[count] = norm * eval_Tn(n, z)
-    return tmp 
-
-
-
-@njit('float64[:](float64[:], float64, float64)')
-def weight_func_Tn(x, a, b):
-    return (b-a) / np.sqrt((a-x) * (x-b))
-
-@njit 
-def angular_deriv(N_ang, angle, mus, V_old, space):
-
-    if angle != 0 and angle != N_ang -1:
-        h = (mus[angle+1] - mus[angle]) / (mus[angle]-mus[angle-1])
-        right = (1-mus[angle+1]**2)*V_old[angle+1,space,:]
-        middle = (1-mus[angle]**2)*V_old[angle,space,:]
-        left = (1-mus[angle-1]**2)*V_old[angle-1,space,:]
-        dterm =  (right - h**2 * middle - (1-h**2) * left) / (mus[angle+1]-mus[angle]) / (1+h) 
-    
-    elif angle == 0:
-        h = mus[angle+1] - mus[angle]
-        right = (1-mus[angle+1]**2)*V_old[angle+1,space,:]
-        middle = (1-mus[angle]**2)*V_old[angle,space,:]
-        dterm = (right - middle) / h
-
-    elif angle == N_ang - 1:
-        h = mus[angle] - mus[angle-1]
-        right = (1-mus[angle]**2)*V_old[angle,space,:]
-        middle = (1-mus[angle-1]**2)*V_old[angle-1,space,:]
-        dterm = (right - middle) / h
-
-    return dterm
-
-
-@njit
-def finite_diff_uneven_2(x, ix, u, left = False, right = False):
-
-    if left == False and right == False:
-        h = (x[ix+1] - x[ix]) / (x[ix] - x[ix-1])
-        res = (u[ix + 1] - h**2 * u[ix-1] - (1-h**2) * u[ix]) / (x[ix+1]- x[ix]) / (1+h)
-    
-    elif left == True:
-        h = x[ix+1] - x[ix]
-        right = u[ix+1]
-        middle = u[ix]
-        res = (right - middle) / h 
-        # xghost = x[ix] - (x[ix+1]-x[ix])
-        # h = (x[ix+1] - x[ix]) / (x[ix] - xghost)
-        # res = (u[ix + 1] - h**2 * 0 - (1-h**2) * u[ix]) / (x[ix+1]- x[ix]) / (1+h)
-
-    elif right == True:
-        h = x[ix] - x[ix-1]
-        right = u[ix]
-        middle = u[ix-1]
-        res = (right - middle) / h 
-        # xghost = x[ix] + (x[ix] - x[ix-1])
-        # h = (xghost - x[ix]) / (x[ix] - x[ix-1])
-        # res = (0 - h**2 * u[ix-1] - (1-h**2) * u[ix]) / (xghost- x[ix]) / (1+h)
-    return res
-
-@njit
-def finite_diff_uneven(x, ix, psi, left = False, right = False):
-    # if left == False and right == False:
-    #     h = (x[ix+1] - x[ix]) / (x[ix] - x[ix-1])
-    #     res = (u[ix + 1] - h**2 * u[ix-1] - (1-h**2) * u[ix]) / (x[ix+1]- x[ix]) / (1+h)
-    
-    # elif left == True:
-    # if right != True:
-    if left == False and right == False:
-        psip = 0.5 * (psi[ix+1] + psi[ix])
-        psim = 0.5 * (psi[ix] + psi[ix-1])
-        mup = (x[ix+1] - x[ix])*0.5 + x[ix]
-        mum = (x[ix] - x[ix-1])*0.5 + x[ix-1]
-        deltamu = mup - mum
-        res = ((1-mup**2) * psip - (1-mum**2) * psim) / deltamu
-    elif left == True:
-         psip = 0.5 * (psi[ix+1] + psi[ix])
-         mup = (x[ix+1] - x[ix])*0.5 + x[ix]
-         mum =  -1
-         deltamu = mup - mum
-         res = ((1-mup**2) * psip ) / deltamu
-    elif right == True:
-         mup = 1
-         mum =  (x[ix] - x[ix-1])*0.5 + x[ix-1]
-         psim = 0.5 * (psi[ix] + psi[ix-1])
-         deltamu = mup - mum
-         res = (-(1-mum**2) * psim ) / deltamu
-
- 
-    return res
-
-# @njit
-# def gauss_quadrature(integrand, xs_quad, ws_quad, a, b):
-#      argument = (b-a)/2*self.xs_quad + (a+b)/2
-#     mu = self.mus[ang]
-#     self.IC[ang,space,j] = (b-a)/2 * np.sum(self.ws_quad * ic.function(argument, mu) * Tn(j, argument, a, b) * weight_func_Tn(argument, a, b))
-        
-        
-def quadrature(n, name, testing = False):
-    ws = np.zeros(n)
-    xs = np.zeros(n)
-    # roots, weights = roots_legendre(n-1)
-    roots = np.zeros(n)
-    if name == 'gauss_legendre':
-        xs, ws = poly.legendre.leggauss(n)
-    elif name == 'chebyshev':
-        ws = np.zeros(n)
-        xs = np.zeros(n)
-        pi = math.pi
-        for i in range(1,n+1):
-            xs[i-1] = math.cos((2*i-1)/2/n * pi)
-            ws[i-1] = pi/n
-
-
-    elif name == 'gauss_lobatto':
-        if n > 1:
-            # brackets = sps.legendre(n-1).weights[:, 0]
-            xs_brackets, blanl = poly.legendre.leggauss(n-1)
-            brackets = xs_brackets
-        else:
-            brackets = np.array([-1,1])
-        for i in range(n-2):
-            # roots[i+1] = bisection(partial(eval_legendre_deriv, n-1), brackets[i], brackets[i+1])
-            x0 = (brackets[i]+ brackets[i+1])*0.5
-            roots[i+1] =  newtons(x0, partial(eval_legendre_deriv, n-1), partial(eval_second_legendre_deriv, n-1))
-
-        xs = roots
-        xs[0] = -1
-        xs[-1] = 1
-        for nn in range(1, n-1):
-            inn = nn + 1
-            ws[nn] = 2 / (n*(n-1)) / (sps.eval_legendre(n-1, roots[nn]))**2
-            ws[0] = 2/ (n*(n-1))
-            ws[-1] = 2/ (n*(n-1))
-        # if testing == True:
-        #     testxs = quadpy.c1.gauss_lobatto(n).points
-        #     testws = quadpy.c1.gauss_lobatto(n).weights
-        #     np.testing.assert_allclose(testxs, xs)
-        #     np.testing.assert_allclose(testws, ws)
-
-
-        # if testing == True:
-        #     # testxs = quadpy.c1.gauss_legendre(n).points
-        #     # testws = quadpy.c1.gauss_legendre(n).weights
-        #     np.testing.assert_allclose(testxs, xs)
-        #     np.testing.assert_allclose(testws, ws)
-    return xs, ws    
-
-def bisection(f, a, b, tol=1e-14):
-    assert np.sign(f(a)) != np.sign(f(b))
-    while b-a > tol:
-        m = a + (b-a)/2
-        fm = f(m)
-        if np.sign(f(a)) != np.sign(fm):
-            b = m
-        else:
-            a = m
-            
-    return m
-
-def eval_legendre_deriv(n, x):
-    return (
-        (x*sps.eval_legendre(n, x) - sps.eval_legendre(n-1, x))
-        /
-        ((x**2-1)/n))
-
-def eval_second_legendre_deriv(n, x):
-    return (n*(-((1 + x**2)*sps.eval_legendre(n, x)) + 2*x*sps.eval_legendre(n-1, x) + (-1 + x**2)*(x*eval_legendre_deriv(n, x) - eval_legendre_deriv(n-1, x))))/(-1 + x**2)**2
-
-def newtons2(x0, f, fprime, tol = 1e-14):
-    old_guess = x0
-    new_guess = 1000
-    it = 0
-    while abs(old_guess-new_guess) > tol:
-        new_guess = old_guess - f(old_guess) / fprime(old_guess)
-        old_guess = new_guess
-    return old_guess
-
-def newtons(x0, f, fprime, tol = 1e-14):
-    def iterate(x0, f, fprime):
-        return x0 - f(x0) / fprime(x0)
-    tol_met = False
-    while tol_met == False:
-        new_x0 = iterate(x0, f, fprime)
-        if abs(new_x0-x0) <= tol:
-            tol_met = True
-        x0 = new_x0
-    return x0
-
-@njit
-def sqrt_two_mass_func(i, j):
-    rttwo = math.sqrt(2)
-    if ((i == 0) and (j == 0)) or ((i != 0) and (j != 0)):
-        return 1.0
-    elif (i == 0) and (j != 0):
-        if j%2 == 0:
-            return rttwo
-        else:
-            return 1/rttwo
-    elif (j == 0) and (i!=0):
-        if i%2 == 0:
-            return rttwo
-        else:
-            return 1/rttwo
-    else:
-        assert(0)
-
-@njit
-def rttwo_mistake_undoer(i,j):
-    if ((i == 0) and (j == 0)) or ((i != 0) and (j != 0)):
-        return 1.0
-    elif (i == 0) and (j != 0):
-        if j%2 == 0:
-            return 2.0
-        else:
-            return 1.0
-    elif (j == 0) and (i!=0):
-        if i%2 == 0:
-            return 2.0
-        else:
-            return 1.0
-    else:
-        assert(0)
-        
-
+from numba import njit, types, prange
+# import quadpy
+import ctypes
+from numba.extending import get_cython_function_address
+import numpy as np
+import math
+from scipy.special import expi
+import matplotlib.pyplot as plt
+from ..plots.plot_functions.show import show
+import numpy.polynomial as poly
+from functools import partial
+from scipy.special import roots_legendre
+import numpy.polynomial as poly
+import scipy.special as sps
+
+
+
+@njit 
+def integrate_quad(a, b, xs, ws, func1, func2):
+    return (b-a)/2 * np.sum(ws * func1((b-a)/2*xs + (a+b)/2) * func2((b-a)/2*xs + (a+b)/2))
+
+_dble = ctypes.c_double
+addr = get_cython_function_address("scipy.special.cython_special", "__pyx_fuse_0_1eval_legendre")
+functype = ctypes.CFUNCTYPE(_dble, _dble, _dble)
+eval_legendre_float64_fn = functype(addr)
+
+# @njit("float64[:](float64,float64[:])")  
+@njit
+def numba_eval_legendre_float64(n, x):
+      return eval_legendre_float64_fn(n, x)
+  
+addr = get_cython_function_address("scipy.special.cython_special", "__pyx_fuse_1expi")
+functype = ctypes.CFUNCTYPE(_dble, _dble)
+expn_fn = functype(addr)
+
+@njit("float64(float64)")
+def numba_expi(x):
+    return expn_fn(x)
+
+# @njit("float64[:](float64,float64[:],float64,float64)", looplift=False, parallel=False)
+@njit('float64[:](int64, float64[:], float64, float64)')
+def normPn(n,x,a=-1.0,b=1.0):
+    tmp = 0*x
+    for count in prange(x.size):
+        z = (b+a-2*x[count])/(a-b)
+        fact = np.sqrt((2*n+1)/(b-a)) #*(x>=a)*(x<=b)
+        # tmp[count] = sc.eval_legendre(n,z)*fact
+        tmp[count] = numba_eval_legendre_float64(n, z)
+    return tmp * fact
+
+
+
+@njit('float64[:](int64, float64[:], float64, float64)')
+def Pn(n,x,a=-1.0,b=1.0):
+    tmp = 0*x
+    for count in prange(x.size):
+        z = x[count]
+        # tmp[count] = sc.eval_legendre(n,z)*fact
+        tmp[count] = numba_eval_legendre_float64(n, z)
+    return tmp
+@njit('float64(int64, float64, float64, float64)')
+def normPn_scalar(n,x,a=-1.0,b=1.0):
+    tmp = 0.0
+    z = (b+a-2*x)/(a-b)
+    fact = np.sqrt((2*n+1)/(b-a)) #*(x>=a)*(x<=b)
+    # tmp[count] = sc.eval_legendre(n,z)*fact
+    tmp = numba_eval_legendre_float64(n, z)
+    return tmp * fact
+@njit('float64(int64, float64, float64, float64)')
+def Pn_scalar(n,x,a=-1.0,b=1.0):
+    tmp = 0.0
+    z = x
+
+    # tmp[count] = sc.eval_legendre(n,z)*fact
+    tmp = numba_eval_legendre_float64(n, z)
+    return tmp 
+
+@njit
+def dx_normPn(n, x, a = -1.0, b = 1.0):
+    tmp = 0*x
+    fact = np.sqrt((2*n+1)/(b-a))
+    for count in prange(x.size):
+        z = (b+a-2*x[count])/(a-b)
+        if n == 0:
+            tmp[count] = 0.0
+        elif n == 1:
+            tmp[count] = 1.0
+        elif n == 2:
+            tmp[count] = 3*z
+        elif n == 3:
+            tmp[count] = (-3 + 15*z**2)/2.
+        elif n == 4:
+            tmp[count] = (-60*z + 140*z**3)/8.
+        elif n == 5:
+            tmp[count] = (15 - 210*z**2 + 315*z**4)/8.
+        elif n == 6:
+            tmp[count] = (210*z - 1260*z**3 + 1386*z**5)/16.
+        elif n == 7:
+            tmp[count] = (-35 + 945*z**2 - 3465*z**4 + 3003*z**6)/16.
+        elif n == 8:
+            tmp[count] = (-2520*z + 27720*z**3 - 72072*z**5 + 51480*z**7)/128.
+        elif n == 9:
+            tmp[count] = (315 - 13860*z**2 + 90090*z**4 - 180180*z**6 + 109395*z**8)/128.
+        elif n == 10:
+            tmp[count] = (6930*z - 120120*z**3 + 540540*z**5 - 875160*z**7 + 461890*z**9)/256.
+        elif n == 11:
+            tmp[count] = (-693 + 45045*z**2 - 450450*z**4 + 1531530*z**6 - 2078505*z**8 + 969969*z**10)/256.
+
+
+    return tmp * fact
+
+
+
+
+# @njit("float64[:](int64, float64[:], float64[:], float64[:,:,:], int64, float64[:,:])", parallel = True, looplift = True, fastmath = True)
+def make_phi(N_ang, ws, xs, u, M, edges):
+    output = xs*0
+    psi = np.zeros((N_ang, xs.size))
+    for ang in range(N_ang):
+        for count in range(xs.size):
+            idx = np.searchsorted(edges[:], xs[count])
+            if (idx == 0):
+                idx = 1
+            if (idx >= edges.size):
+                idx = edges.size - 1
+            for i in range(M+1):
+                psi[ang, count] += u[ang,idx-1,i] * normPn(i,xs[count:count+1],float(edges[idx-1]),float(edges[idx]))[0]
+    output = np.sum(np.multiply(psi.transpose(), ws), axis = 1)
+    return output
+@njit 
+def surf_func(speed,u,space,j,side,xL,xR,N_space):
+#    print(side)
+    if j ==0:
+        B_right = 1/math.sqrt(xR-xL)
+        B_left = 1/math.sqrt(xR-xL)
+    else:
+         B_right = math.sqrt(2*j+1)/math.sqrt(xR-xL)
+         if j%2 ==0:
+                B_left = math.sqrt(2*j+1)/math.sqrt(xR-xL)
+         else:
+                B_left = -math.sqrt(2*j+1)/math.sqrt(xR-xL)
+    if speed == 0:
+        return 0
+    elif speed > 0 and side == "R":
+        return u[space,j]*B_right
+    elif speed > 0 and side =="L":
+        if space !=0:
+#            print(u[k-1,j])
+            return u[space-1,j]*B_right 
+        else:
+            return 0
+    elif speed < 0 and side =="R":
+        if space != N_space-1:
+            return u[space+1,j]*B_left
+        else:
+            return 0
+    elif speed < 0 and side =="L":
+        return u[space,j]*B_left
+
+@njit
+def LU_surf_func(u,space,N_space,mul,M,xL,xR,dxL,dxR):
+    sumright = 0
+    sumleft = 0
+    rightspeed = mul - dxR
+    leftspeed = mul-dxL
+    for j in range(0,M+1):
+        sumright += surf_func(rightspeed,u,space,j,"R",xL,xR,N_space)
+        sumleft += surf_func(leftspeed,u,space,j,"L",xL,xR,N_space)
+    LU = np.zeros(M+1).transpose()
+    for i in range(0,M+1):
+        if i == 0:
+            B_right = 1/math.sqrt(xR-xL)
+            B_left = 1/math.sqrt(xR-xL)
+        elif j>0:
+            B_right = math.sqrt(2*i+1)/math.sqrt(xR-xL)
+            if i%2 ==0:
+                B_left = math.sqrt(2*i+1)/math.sqrt(xR-xL)
+            else: 
+                B_left = -math.sqrt(2*i+1)/math.sqrt(xR-xL)
+        LU[i] = rightspeed*B_right*(sumright) - leftspeed*B_left*(sumleft)
+    return LU 
+
+def find_nodes(edges, M, geometry):
+    # scheme = quadpy.c1.gauss_legendre(M+1)
+    if M == 0:
+        M = 1
+    if geometry['slab'] == True:
+        xs_quad, ws_quad = poly.legendre.leggauss(M)
+        # xs_quad = scheme.points
+        ixx = xs_quad.size
+        xs_list = np.zeros(ixx*(edges.size-1))
+        for k in range(edges.size-1):
+            xL = edges[k]
+            xR = edges[k+1]
+            xs_list[k*ixx:(k+1)*ixx] = xL + (xs_quad + 1)*(xR - xL)/2
+    
+    elif geometry['sphere'] == True:
+        xs_quad, ws_quad = quadrature(M, 'chebyshev')
+        ixx = xs_quad.size
+        xs_list = np.zeros(ixx*(edges.size-1))
+        for k in range(edges.size-1):
+            xL = edges[k]
+            xR = edges[k+1]
+            xs_list[k*ixx:(k+1)*ixx] = np.sort(xL + (xs_quad + 1)*(xR - xL)/2)
+
+    return xs_list
+
+def convergence(err1, x1, err2, x2):
+    return -math.log(err2/err1)/math.log(x2/x1)
+@njit
+def f1(t, tau, x0):
+    return -x0 * numba_expi(tau-t)
+@njit    
+def f2(t, tau, x0, x):
+    if tau != t:
+        return 0.5*((-x0 + abs(x)) * numba_expi(tau-t) + math.exp(tau - t))
+    else:
+        return 0.5 
+@njit
+def f3(t, tau, x0, x):
+    return math.exp(tau-t)
+@njit
+def uncollided_square_s2(x, t, x0, t0):
+    t_ceiling = min(t,t0)
+    if t > 0:
+        tau_1 = 0.0
+        end = min(t_ceiling, t - abs(x) + x0)
+        if end <= 0.0:
+            return 0.0
+        tau_2 = min(end, t - x0 - abs(x))
+        if tau_2 < 0.0:
+            tau_2 = 0.0
+        tau_3 = min(end, t - x0 + abs(x))
+        if tau_3 < 0.0:
+            tau_3 = 0.0
+        tau_4 = end
+        if tau_4 < 0.0:
+            tau_4 = 0.0
+        t1 = f1(t, tau_2, x0) - f1(t, tau_1, x0)
+        t2 = f2(t, tau_3, x0, x) - f2(t, tau_2, x0, x)
+        t3 = f3(t, tau_4, x0, x) - f3(t, tau_3, x0, x)
+        
+        return t1 + t2 + t3
+    else:
+        return 0.0
+
+@njit
+def s2_F(t,tau):
+    """ integrand for uncollided square s2
+    """
+    return 0.5 * math.exp(-t + tau)
+
+@njit 
+def uncollided_su_olson_s2(x,t,x0,t0):
+    sqrt3 = math.sqrt(3)
+    abx = abs(x)
+    edge = min(t,t0)
+    if t <= t0:
+        if (abx > x0):
+            arg1 = max(0,edge - sqrt3 * (abx - x0))
+            arg2 = max(0,edge - sqrt3 * (abx + x0))
+            # arg2 = max(arg2, edge)
+            # arg2 = min(arg2,t0)
+            # arg1 = min(arg2,t0)
+            return s2_F(t, arg1) - s2_F(t, arg2)
+        
+        elif (abx <= x0):
+            if (edge + sqrt3 * abx <= sqrt3 * x0):
+                return  2 * (s2_F(t, edge) - s2_F(t, 0))
+            elif (edge + sqrt3 * abx > sqrt3 * x0) and (edge - sqrt3 * (abx + x0) > 0):
+                arg2 = edge - sqrt3 * (x0 - abx)
+                arg1 = edge - sqrt3 * (abx + x0)
+                if arg1 <0 or arg2 <0:
+                    print("error negative bounds")
+                return s2_F(t, arg2) - s2_F(t, arg1) + 2 * (s2_F(t, edge) - s2_F(t, arg2))
+            elif (edge + sqrt3 * abx > sqrt3 * x0) and (edge - sqrt3 * (abx + x0) <= 0): 
+                arg1 = max(0,edge - sqrt3 * (x0 - abx))
+                if arg1 <0:
+                    print("error negative bounds")
+                return 2 * (s2_F(t, edge) - s2_F(t, arg1)) + s2_F(t, arg1) - s2_F(t, 0)
+            else:
+                print("missed case")
+    elif t > t0:
+        T0 = edge
+        x = abs(x)
+        if x0 - math.sqrt(3)*(t-T0)/3.0 <= x <= x0 + math.sqrt(3)*(t-T0)/3.0:
+            arg = max(t - (x-x0)*3/math.sqrt(3),0)
+            argp = min(arg, T0)
+            arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
+            arg2p = min(arg2, T0)
+            return s2_F(t,  argp)   - s2_F(t, arg2p) 
+        # elif x <= x0 + math.sqrt(3)*(t-T0)/3.0 and x >= x0 - math.sqrt(3)*(t-T0)/3.0:
+        #     arg = min(t - (x-x0)*3/math.sqrt(3),T0)
+        #     arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
+        #     return s2_F(t,  arg)   - s2_F(t, arg2) 
+
+            
+        elif x > x0 + math.sqrt(3)*(t-T0)/3.0:
+            arg = max(t - (x-x0)*3/math.sqrt(3),0)
+            arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
+            arg = min(arg, edge)
+            arg2 = min(arg2, edge)
+            print(arg, arg2)
+            print('here')
+            return s2_F(t,  arg) - s2_F(t, arg2)
+
+        # elif x < x0 + math.sqrt(3)*(t-T0)/3.0:
+            
+        elif x < x0 - math.sqrt(3)*(t-T0)/3.0:
+            arg = t - (x0-x)*3/math.sqrt(3)
+            if t - (x0-x)*3/math.sqrt(3) <= 0:
+                return  2*(s2_F(t,  T0) - s2_F(t, 0))
+            elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
+                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, 0)
+            else:
+                return 0
+         
+def su_olson_s2_integrand(tau,x,t,x0,t0):
+    return  (np.exp(-t + tau)*(-np.heaviside((-3*x - 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) - np.heaviside((3*x - 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) + np.heaviside((-3*x + 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) + np.heaviside((3*x + 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1)))/2.
+    
+            
+@njit
+def uncollided_s2_gaussian(x,t,sigma,t0):
+    tf = min(t,t0)
+
+    return (math.exp(-(math.sqrt(3)*x) + (3*sigma**2)/4.)*math.sqrt(3*math.pi)*sigma*(math.erf((-2*t + 2*tf + 2*math.sqrt(3)*x - 3*sigma**2)/(2.*math.sqrt(3)*sigma)) + math.exp(2*math.sqrt(3)*x)*(math.erf(t/(math.sqrt(3)*sigma) + x/sigma + (math.sqrt(3)*sigma)/2.) - math.erf((2*t - 2*tf + 2*math.sqrt(3)*x + 3*sigma**2)/(2.*math.sqrt(3)*sigma))) + math.erf((2*math.sqrt(3)*t - 6*x + 3*math.sqrt(3)*sigma**2)/(6.*sigma))))/4.
+
+    
+@njit
+def uncollided_s2_gaussian_thick(x,t,sigma,t0):
+    return (6*t**5 + t**6 + 12*t**3*(10 + 15*x**2 - 3*sigma**2) + 3*t**4*(10 + 15*x**2 - 3*sigma**2) +  18*t*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) +  9*t**2*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) - 9*(-80 - 3*x**2*(40 + 10*x**2 + x**4) + 24*sigma**2 + 9*x**2*(4 + x**2)*sigma**2 - 6*(2 + 3*x**2)*sigma**4 + 18*sigma**6) + math.exp(t0)*(-t**6 + 6*t**5*(-1 + t0) + 6*t0**5 - t0**6 + 12*t0**3*(10 + 15*x**2 - 3*sigma**2) - 3*t0**4*(10 + 15*x**2 - 3*sigma**2) - 3*t**4*(10 + 5*(-2 + t0)*t0 + 15*x**2 - 3*sigma**2) + 4*t**3*(-30 + 5*t0*(6 + (-3 + t0)*t0) + 45*(-1 + t0)*x**2 - 9*(-1 + t0)*sigma**2) + 18*t0*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) - 9*t0**2*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) + 9*(-80 - 3*x**2*(40 + 10*x**2 + x**4) + 24*sigma**2 + 9*x**2*(4 + x**2)*sigma**2 - 6*(2 + 3*x**2)*sigma**4 + 18*sigma**6) - 3*t**2*(5*(24 + t0*(-24 + t0*(12 + (-4 + t0)*t0))) + 45*x**4 - 18*(2 + (-2 + t0)*t0)*sigma**2 + 18*sigma**4 + 18*x**2*(10 + 5*(-2 + t0)*t0 - 3*sigma**2)) + 6*t*(-120 + t0*(120 + t0*(-60 + t0*(20 + (-5 + t0)*t0))) + 45*(-1 + t0)*x**4 - 6*(-6 + t0*(6 + (-3 + t0)*t0))*sigma**2 + 18*(-1 + t0)*sigma**4 + 6*x**2*(-30 + 5*t0*(6 + (-3 + t0)*t0) - 9*(-1 + t0)*sigma**2))))/(162.*math.exp(t)*sigma**6)
+
+@njit        
+def problem_identifier(source_type):
+    if source_type[0] == 1:
+        problem_type = 'plane_IC'
+    elif source_type[1] == 1:
+        problem_type = 'square_IC'
+    elif source_type[2] == 1:
+        problem_type = 'square_source'
+    elif source_type[3] == 1:
+        problem_type = 'gaussian_IC'
+    elif source_type[4] == 1:
+        problem_type = 'gaussian_source'
+
+    else:
+        problem_type =='none'
+    return problem_type
+
+
+# xs  = np.linspace(-1.5,1.5, 100)
+# phi = xs*0
+# phi_u = xs*0
+# tf = 1.0
+# expi1 = xs*0
+# expi2 = xs*0
+
+# for i in range(len(xs)):
+#     expi1[i] = numba_expi(xs[i])
+#     expi2[i] = expi(xs[i])
+
+#     # phi_u[i] = uncollided_square_s2(xs[i], tf, 0.5, tf)
+# plt.figure(1)
+
+# plt.plot(xs, expi1, "--")
+# plt.plot(xs, expi2, ":")
+
+@njit
+def uncollided_su_olson_s2_2(x,t,x0,t0):
+    T0 = min(t, t0)
+    if t > t0:
+        x = abs(x)
+        if x0 - math.sqrt(3)*(t-T0)/3.0 <= abs(x) <= x0 + math.sqrt(3)*(t-T0)/3.0:
+            arg = max(T0 - (abs(x)-x0)*3/math.sqrt(3),0)
+            return s2_F(t,  T0) - s2_F(t, 0) 
+        
+        
+        if abs(x) < x0 - math.sqrt(3)*(t-T0)/3.0:
+            arg = t - (x0-x)*3/math.sqrt(3)
+            
+            if t - (x0-x)*3/math.sqrt(3) <= 0:
+                return  2*(s2_F(t,  T0) - s2_F(t, 0))
+            
+            
+            elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
+                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, 0)
+            
+            
+
+            
+        elif x > x0 + math.sqrt(3)*(t-T0)/3.0:
+            arg = max(t - (x-x0)*3/math.sqrt(3),0)
+            return s2_F(t,  arg) - s2_F(t, 0) 
+       
+        
+    else:
+        return 0.0
+
+def test_s2_sol(t = 10, t0 = 10):
+    import scipy.integrate as integrate
+    
+    # xs = np.linspace(0, t+0.5, 500)
+    xs = np.linspace(50,60, 500)
+    phi = xs*0
+    phi_test = xs*0
+    phi_exact = xs*0
+    x0 = 0.5 
+    for ix in range(xs.size):
+        phi[ix] = uncollided_su_olson_s2(xs[ix],t, x0, t0)
+        # phi_test[ix] = uncollided_su_olson_s2_2(xs[ix],t, x0, t0)
+        phi_exact[ix] = integrate.quad(su_olson_s2_integrand, 0, min(t,t0), args = (xs[ix],t,x0,t0))[0]
+    
+    # plt.plot(xs, phi, '-ob')
+    # plt.plot(xs, phi_exact, '-k')
+    # plt.plot(xs, phi_test, '-or', mfc = 'none')
+    # plt.axvline(x = x0 + math.sqrt(3)*(t-t0)/3.0, color = 'r')
+    # t - (x0-x)*3/math.sqrt(3)
+    
+    print(np.sqrt(np.mean(phi_exact-phi)**2), 'RMSE')
+    # show('uncollided_su_olson_s2_t_10')
+    # plt.show()
+
+def test_square_sol(t = 31.6228, t0 = 10):
+    import scipy.integrate as integrate
+    
+    xs = np.linspace(0, 20, 1000)
+    phi = xs*0
+    phi_test = xs*0
+    phi_exact = xs*0
+    x0 = 0.5
+    for ix in range(xs.size):
+        phi[ix] = uncollided_square_s2(xs[ix],t, x0, t0)
+
+    
+    # plt.plot(xs, phi, '-ob')
+    # plt.plot(xs, phi, '-k')
+    # plt.plot(xs, phi_test, '-or', mfc = 'none')
+    
+    # show('uncollided_square_s2t')
+    # plt.show()
+
+# def time_step_counter(t, division):
+@njit    
+def heaviside_vector(x):
+    return_array = np.ones(x.size)
+    for ix, xx in enumerate(x):
+        if xx < 0:
+            return_array[ix] = 0.0
+    return return_array
+    
+@njit    
+def heaviside_scalar(x):
+    returnval = 1.0
+    if x < 0:
+        returnval = 0.0
+    return returnval
+    
+@njit
+def shaper(angles, spaces, M, thermal):
+    if thermal == True:
+        return np.array([angles + 1 , spaces, M+1])
+    else:
+        return np.array([angles, spaces, M+1])
+    
+@njit 
+
+def eval_Tn(n,x):
+    if n == 0:
+        return  1 + x*0 
+    elif n == 1:
+        return x
+    elif n == 2:
+        return -1 + 2*x**2
+    elif n == 3:
+        return -3*x + 4*x**3
+    elif n == 4:
+        return 1 - 8*x**2 + 8*x**4
+    elif n == 5:
+        return 5*x - 20*x**3 + 16*x**5
+    elif n == 6:
+        return -1 + 18*x**2 - 48*x**4 + 32*x**6
+    elif n == 7:
+        return -7*x + 56*x**3 - 112*x**5 + 64*x**7
+    elif n == 8:
+        return 1 - 32*x**2 + 160*x**4 - 256*x**6 + 128*x**8
+    elif n == 9:
+        return 9*x - 120*x**3 + 432*x**5 - 576*x**7 + 256*x**9
+    elif n == 10:
+        return -1 + 50*x**2 - 400*x**4 + 1120*x**6 - 1280*x**8 + 512*x**10
+    elif n == 11:
+        return -11*x + 220*x**3 - 1232*x**5 + 2816*x**7 - 2816*x**9 + 1024*x**11
+    elif n == 12:
+        return 1 - 72*x**2 + 840*x**4 - 3584*x**6 + 6912*x**8 - 6144*x**10 + 2048*x**12
+    elif n > 12:
+        print('not implemented to this order yet')
+        assert(0)
+
+@njit('float64(int64)')
+def kronecker(i):
+    if i == 0:
+        return 1.0
+    else:
+        return 0.0
+    
+@njit('float64[:](int64, float64[:], float64, float64)')
+def normTn(n,x,a=0,b=1.0):
+    tmp = 0*x
+    norm = (1/ math.sqrt(2))**kronecker(n) * math.sqrt(1/(b-a)) * math.sqrt(2) / math.sqrt(math.pi) 
+    for count in prange(x.size):
+        xx = x[count]
+        # tmp[count] = sc.eval_legendre(n,z)*fact
+        z = 2/(b - a) * xx - (b + a)/(b - a)
+
+        tmp[count] = norm * eval_Tn(n, z)
+    return tmp 
+
+
+
+@njit('float64[:](float64[:], float64, float64)')
+def weight_func_Tn(x, a, b):
+    return (b-a) / np.sqrt((a-x) * (x-b))
+
+@njit 
+def angular_deriv(N_ang, angle, mus, V_old, space):
+
+    if angle != 0 and angle != N_ang -1:
+        h = (mus[angle+1] - mus[angle]) / (mus[angle]-mus[angle-1])
+        right = (1-mus[angle+1]**2)*V_old[angle+1,space,:]
+        middle = (1-mus[angle]**2)*V_old[angle,space,:]
+        left = (1-mus[angle-1]**2)*V_old[angle-1,space,:]
+        dterm =  (right - h**2 * middle - (1-h**2) * left) / (mus[angle+1]-mus[angle]) / (1+h) 
+    
+    elif angle == 0:
+        h = mus[angle+1] - mus[angle]
+        right = (1-mus[angle+1]**2)*V_old[angle+1,space,:]
+        middle = (1-mus[angle]**2)*V_old[angle,space,:]
+        dterm = (right - middle) / h
+
+    elif angle == N_ang - 1:
+        h = mus[angle] - mus[angle-1]
+        right = (1-mus[angle]**2)*V_old[angle,space,:]
+        middle = (1-mus[angle-1]**2)*V_old[angle-1,space,:]
+        dterm = (right - middle) / h
+
+    return dterm
+
+
+@njit
+def finite_diff_uneven_2(x, ix, u, left = False, right = False):
+
+    if left == False and right == False:
+        h = (x[ix+1] - x[ix]) / (x[ix] - x[ix-1])
+        res = (u[ix + 1] - h**2 * u[ix-1] - (1-h**2) * u[ix]) / (x[ix+1]- x[ix]) / (1+h)
+    
+    elif left == True:
+        h = x[ix+1] - x[ix]
+        right = u[ix+1]
+        middle = u[ix]
+        res = (right - middle) / h 
+        # xghost = x[ix] - (x[ix+1]-x[ix])
+        # h = (x[ix+1] - x[ix]) / (x[ix] - xghost)
+        # res = (u[ix + 1] - h**2 * 0 - (1-h**2) * u[ix]) / (x[ix+1]- x[ix]) / (1+h)
+
+    elif right == True:
+        h = x[ix] - x[ix-1]
+        right = u[ix]
+        middle = u[ix-1]
+        res = (right - middle) / h 
+        # xghost = x[ix] + (x[ix] - x[ix-1])
+        # h = (xghost - x[ix]) / (x[ix] - x[ix-1])
+        # res = (0 - h**2 * u[ix-1] - (1-h**2) * u[ix]) / (xghost- x[ix]) / (1+h)
+    return res
+
+@njit
+def finite_diff_uneven(x, ix, psi, left = False, right = False):
+    # if left == False and right == False:
+    #     h = (x[ix+1] - x[ix]) / (x[ix] - x[ix-1])
+    #     res = (u[ix + 1] - h**2 * u[ix-1] - (1-h**2) * u[ix]) / (x[ix+1]- x[ix]) / (1+h)
+    
+    # elif left == True:
+    # if right != True:
+    if left == False and right == False:
+        psip = 0.5 * (psi[ix+1] + psi[ix])
+        psim = 0.5 * (psi[ix] + psi[ix-1])
+        mup = (x[ix+1] - x[ix])*0.5 + x[ix]
+        mum = (x[ix] - x[ix-1])*0.5 + x[ix-1]
+        deltamu = mup - mum
+        res = ((1-mup**2) * psip - (1-mum**2) * psim) / deltamu
+    elif left == True:
+         psip = 0.5 * (psi[ix+1] + psi[ix])
+         mup = (x[ix+1] - x[ix])*0.5 + x[ix]
+         mum =  -1
+         deltamu = mup - mum
+         res = ((1-mup**2) * psip ) / deltamu
+    elif right == True:
+         mup = 1
+         mum =  (x[ix] - x[ix-1])*0.5 + x[ix-1]
+         psim = 0.5 * (psi[ix] + psi[ix-1])
+         deltamu = mup - mum
+         res = (-(1-mum**2) * psim ) / deltamu
+
+ 
+    return res
+
+# @njit
+# def gauss_quadrature(integrand, xs_quad, ws_quad, a, b):
+#      argument = (b-a)/2*self.xs_quad + (a+b)/2
+#     mu = self.mus[ang]
+#     self.IC[ang,space,j] = (b-a)/2 * np.sum(self.ws_quad * ic.function(argument, mu) * Tn(j, argument, a, b) * weight_func_Tn(argument, a, b))
+        
+        
+def quadrature(n, name, testing = False):
+    ws = np.zeros(n)
+    xs = np.zeros(n)
+    # roots, weights = roots_legendre(n-1)
+    roots = np.zeros(n)
+    if name == 'gauss_legendre':
+        xs, ws = poly.legendre.leggauss(n)
+    elif name == 'chebyshev':
+        ws = np.zeros(n)
+        xs = np.zeros(n)
+        pi = math.pi
+        for i in range(1,n+1):
+            xs[i-1] = math.cos((2*i-1)/2/n * pi)
+            ws[i-1] = pi/n
+
+
+    elif name == 'gauss_lobatto':
+        if n > 1:
+            # brackets = sps.legendre(n-1).weights[:, 0]
+            xs_brackets, blanl = poly.legendre.leggauss(n-1)
+            brackets = xs_brackets
+        else:
+            brackets = np.array([-1,1])
+        for i in range(n-2):
+            # roots[i+1] = bisection(partial(eval_legendre_deriv, n-1), brackets[i], brackets[i+1])
+            x0 = (brackets[i]+ brackets[i+1])*0.5
+            roots[i+1] =  newtons(x0, partial(eval_legendre_deriv, n-1), partial(eval_second_legendre_deriv, n-1))
+
+        xs = roots
+        xs[0] = -1
+        xs[-1] = 1
+        for nn in range(1, n-1):
+            inn = nn + 1
+            ws[nn] = 2 / (n*(n-1)) / (sps.eval_legendre(n-1, roots[nn]))**2
+        if n > 1:
+            ws[0] = 2/ (n*(n-1))
+            ws[-1] = 2/ (n*(n-1))
+        # if testing == True:
+        #     testxs = quadpy.c1.gauss_lobatto(n).points
+        #     testws = quadpy.c1.gauss_lobatto(n).weights
+        #     np.testing.assert_allclose(testxs, xs)
+        #     np.testing.assert_allclose(testws, ws)
+
+
+        # if testing == True:
+        #     # testxs = quadpy.c1.gauss_legendre(n).points
+        #     # testws = quadpy.c1.gauss_legendre(n).weights
+        #     np.testing.assert_allclose(testxs, xs)
+        #     np.testing.assert_allclose(testws, ws)
+    return xs, ws    
+
+def bisection(f, a, b, tol=1e-14):
+    assert np.sign(f(a)) != np.sign(f(b))
+    while b-a > tol:
+        m = a + (b-a)/2
+        fm = f(m)
+        if np.sign(f(a)) != np.sign(fm):
+            b = m
+        else:
+            a = m
+            
+    return m
+
+def eval_legendre_deriv(n, x):
+    return (
+        (x*sps.eval_legendre(n, x) - sps.eval_legendre(n-1, x))
+        /
+        ((x**2-1)/n))
+
+def eval_second_legendre_deriv(n, x):
+    return (n*(-((1 + x**2)*sps.eval_legendre(n, x)) + 2*x*sps.eval_legendre(n-1, x) + (-1 + x**2)*(x*eval_legendre_deriv(n, x) - eval_legendre_deriv(n-1, x))))/(-1 + x**2)**2
+
+def newtons2(x0, f, fprime, tol = 1e-14):
+    old_guess = x0
+    new_guess = 1000
+    it = 0
+    while abs(old_guess-new_guess) > tol:
+        new_guess = old_guess - f(old_guess) / fprime(old_guess)
+        old_guess = new_guess
+    return old_guess
+
+def newtons(x0, f, fprime, tol = 1e-14):
+    def iterate(x0, f, fprime):
+        return x0 - f(x0) / fprime(x0)
+    tol_met = False
+    while tol_met == False:
+        new_x0 = iterate(x0, f, fprime)
+        if abs(new_x0-x0) <= tol:
+            tol_met = True
+        x0 = new_x0
+    return x0
+
+@njit
+def sqrt_two_mass_func(i, j):
+    rttwo = math.sqrt(2)
+    if ((i == 0) and (j == 0)) or ((i != 0) and (j != 0)):
+        return 1.0
+    elif (i == 0) and (j != 0):
+        if j%2 == 0:
+            return rttwo
+        else:
+            return 1/rttwo
+    elif (j == 0) and (i!=0):
+        if i%2 == 0:
+            return rttwo
+        else:
+            return 1/rttwo
+    else:
+        assert(0)
+
+@njit
+def rttwo_mistake_undoer(i,j):
+    if ((i == 0) and (j == 0)) or ((i != 0) and (j != 0)):
+        return 1.0
+    elif (i == 0) and (j != 0):
+        if j%2 == 0:
+            return 2.0
+        else:
+            return 1.0
+    elif (j == 0) and (i!=0):
+        if i%2 == 0:
+            return 2.0
+        else:
+            return 1.0
+    else:
+        assert(0)
+        
+
-- 
2.43.0


From 0aaff988e5b7879ae2bf4dea569940b5004e9c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 14/41] fix: apply the source strength once to uncollided
 solutions and uncollided sources (it was squared or cubed)

---
 moving_mesh_transport/solver_classes/sources.py              | 5 +++--
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/sources.py b/moving_mesh_transport/solver_classes/sources.py
index a0fe790..5dd4f47 100644
--- a/moving_mesh_transport/solver_classes/sources.py
+++ b/moving_mesh_transport/solver_classes/sources.py
@@ -119,7 +119,7 @@ class source_class(object):
         if self.geometry['slab'] == True:
             if self.uncollided == True:
                 if (self.source_type[0] == 1) and  (self.moving == True):
-                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR)
+                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR) * self.source_strength
                 else:
                     for j in range(self.M+1):
                         self.integrate_quad(t, xL, xR, j, uncollided_solution.uncollided_solution)
@@ -146,7 +146,8 @@ class source_class(object):
 
                         
 
-        self.S = self.S * self.source_strength
+        if self.uncollided == False: # uncollided_solution is already scaled
+            self.S = self.S * self.source_strength
 
     def make_source_not_isotropic(self, t, mu, xL, xR):
             if self.source_type[4] ==1:
diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index c8c2478..6c0e820 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -222,7 +222,7 @@ class uncollided_solution(object):
                     temp[ix] = math.exp(-t)*(t + xx + self.x0)/(2.0 * t + 1e-12)
                 elif (self.x0 - xx <= t) and (self.x0 + xx >= t):
                     temp[ix] = math.exp(-t)*(t - xx + self.x0)/(2.0 * t + 1e-12)
-        return temp * self.source_strength
+        return temp
     
     def shell_IC_uncollided_solution(self, xs, t):
         temp = xs*0 
@@ -244,7 +244,7 @@ class uncollided_solution(object):
         sqrtpi = math.sqrt(math.pi)
         for ix in range(xs.size):
             xx = xs[ix]
-            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12) * self.source_strength
+            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12)
         return temp
         
     def plane_IC_uncollided_solution(self, xs, t):
-- 
2.43.0


From fbad8e48171a6fe6cbeae3be582794dcdcd3641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 15/41] fix: _interp1d read one past the end of its tables at
 and beyond the last point

---
 moving_mesh_transport/solver_classes/mesh_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh_functions.py b/moving_mesh_transport/solver_classes/mesh_functions.py
index e9c8fc6..da4df1f 100644
--- a/moving_mesh_transport/solver_classes/mesh_functions.py
+++ b/moving_mesh_transport/solver_classes/mesh_functions.py
@@ -98,13 +98,13 @@ def _interp1d(xnew, xvals, yvals, ynew):
         x_b = xvals[0]
         y_b = yvals[0]
     else:
-        while xnew[0] >= xvals[i] and i < N:
+        while i < N and xnew[0] >= xvals[i]:
             i += 1
+        if i == N:
+            i = N-1
         if xnew[0] == xvals[i]:
             ynew[0] = yvals[i]
             return ynew
-        if i == N:
-            i = N-1
         x_a = xvals[i-1]
         y_a = yvals[i-1]
         x_b = xvals[i]
-- 
2.43.0


From 42245857dc0258ad58d3fb4afd6cf69762dc41b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 16/41] fix: the spherical right-hand side absorbs with sigma_t
 (it ignored it and used 1)

---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 486a00a..c08f0c9 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -335,7 +335,7 @@ class rhs_class():
                     # if max(np.abs(PV - PV2)) >= 1e-10:
                     #     assert(0)
                     RHS += PV * self.c
-                    RHS -= U
+                    RHS -= VV
 
                     # RHS2 -= (3 * (a+b) / 2 / (a*b + b**2 + a**2)) * dterm 
 
-- 
2.43.0


From 2f2164e0fffd93fae189187c93a493031487f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 17/41] fix: save psi and mus inside the problem's folder
 (problems with equal parameters overwrote each other's)

---
 .../loading_and_saving/load_solution.py                | 10 +++++++---
 .../loading_and_saving/save_output.py                  |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index f294f3c..5394709 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -38,7 +38,7 @@ class load_sol:
         # full_str = self.rad_or_transfer
         full_str = ''
 
-        full_str += "/" + str(self.source_name) + '_uncollided_' * (uncollided) + 'moving_mesh_' * (moving) + 'N_space = ' + str(N_space) + '_t = ' + str(tfinal) + '_c = ' + str(self.c) + '_x0_or_sigma = ' + str(x0_or_sigma)
+        full_str += str(self.source_name) + '_uncollided_' * (uncollided) + 'moving_mesh_' * (moving) + 'N_space = ' + str(N_space) + '_t = ' + str(tfinal) + '_c = ' + str(self.c) + '_x0_or_sigma = ' + str(x0_or_sigma)
         if epsilon != 1.0:
             full_str += '_epsilon=' + str(epsilon)
         f = h5py.File(self.data_file_path, "r+")
@@ -50,10 +50,14 @@ class load_sol:
         self.phi = sol_data[1]
         self.e = sol_data[2]
 
-        self.psi = f[self.problem_name][full_str]['psi'][:,:]
+        if f[self.problem_name].__contains__(full_str):
+            angular = f[self.problem_name][full_str]
+        else: # older files keep psi and mus outside of the problem's folder
+            angular = f[full_str]
+        self.psi = angular['psi'][:,:]
         print(self.psi)
 
-        self.mus = f[self.problem_name][full_str]['mus'][:]
+        self.mus = angular['mus'][:]
 
       
         self.ws = f[self.problem_name]['weights/' + full_str][:]
diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 0fd22c8..a60e3d4 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -185,7 +185,7 @@ class save_output:
             f.create_group(folder_name)
         full_str = ''
 
-        full_str += "/" + str(self.source_name) + '_uncollided_' * (self.uncollided) + 'moving_mesh_' * (self.moving) + 'N_space = ' + str(N_space) + '_t = ' + str(self.tfinal) + '_c = ' + str(self.c) + '_x0_or_sigma = ' + str(x0_or_sigma)
+        full_str += str(self.source_name) + '_uncollided_' * (self.uncollided) + 'moving_mesh_' * (self.moving) + 'N_space = ' + str(N_space) + '_t = ' + str(self.tfinal) + '_c = ' + str(self.c) + '_x0_or_sigma = ' + str(x0_or_sigma)
         if epsilon != 1.0:
             full_str += '_epsilon=' + str(epsilon)
 
@@ -197,7 +197,7 @@ class save_output:
         dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)))
         
         if not f[folder_name].__contains__(full_str):
-            f.create_group(full_str)
+            f[folder_name].create_group(full_str)
 
 
 
-- 
2.43.0


From 81dcd73bb1eb1efe1a73f8d8715827bdba17eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 18/41] fix: call_wavepoints reads the file and groups that
 save_wave_loc writes

---
 moving_mesh_transport/loading_and_saving/load_solution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index 5394709..2971373 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -19,7 +19,7 @@ class load_sol:
         self.data_file_path = data_folder / file_name
         # self.data_file_path = data_folder / 'run_data.h5' 
         self.final_sol_path = data_folder / 'run_data_final'
-        self.wavepoints_file_path = data_folder / 'wavepoints.h5'
+        self.wavepoints_file_path = data_folder / 'wavepoints_crc.hdf5'
         self.source_name = source_name
         self.rad_or_transfer = rad_or_transfer
         self.c = c 
@@ -95,7 +95,7 @@ class load_sol:
                 self.tpnts = f['su_olson_thick']['tpnts_' + full_str][:]
                 self.left = f['su_olson_thick']['left_' + full_str][:]
                 self.right = f['su_olson_thick']['right_' + full_str][:]
-                self.T_wave = f[folder_name]['T_wave_' + full_str][:]
+                self.T_wave = f[self.problem_name]['T_wave_' + full_str][:]
 
         elif self.problem_name == 'su_olson_thick_s2':
                 if not f.__contains__(self.problem_name):
@@ -152,7 +152,7 @@ class load_sol:
             self.tpnts = f[self.problem_name]['tpnts_' + full_str][:]
             self.left = f[self.problem_name]['left_' + full_str][:]
             self.right = f[self.problem_name]['right_' + full_str][:]
-            self.T_wave = f[folder_name]['T_wave_' + full_str][:]
+            self.T_wave = f[self.problem_name]['T_wave_' + full_str][:]
 
 
 
-- 
2.43.0


From 55f699f2b4d8b56598c1ebc146cd1e850a999a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 19/41] fix: run.boundary_source selects its benchmark by
 opacity name (TypeError after every run)

---
 .../solver_functions/run_functions.py                | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 203bad9..c2e7730 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -204,17 +204,17 @@ class run:
             f = lambda x: np.exp(-x**2 /(2 * 0.5**2))
             fsol = lambda x, mu: np.exp(x * 1/mu) 
             plt.figure(3)
-            if solver.sigma_func[0] == 1:
+            if solver.sigma_func['constant'] == 1:
                 # plt.plot(self.xs, self.psi[-1,:], '-^')
                 plt.plot(self.xs, fsol(self.xs+self.x0, -1), 'rx')
                 plt.show()
-            elif solver.sigma_func[1] == 1:
+            elif solver.sigma_func['gaussian'] == 1:
                 self.steady_state_gaussian_benchmark()
             
-            elif solver.sigma_func[2] == 1 or solver.sigma_func[3] == 1:
+            elif solver.sigma_func['siewert1'] == 1 or solver.sigma_func['siewert2'] == 1:
                 self.siewert_bench(solver.sigma_func)
             
-            elif solver.sigma_func[4] == 1:
+            elif solver.sigma_func['fake_sedov'] == 1:
                 plt.figure(4)
                 mu2 = self.mus[np.argmin(np.abs(self.mus - 0.6))]
                 # plt.plot(self.xs[-1], self.psi[-1,-1], '--', label = 'mu = 1 from solver')
@@ -369,7 +369,7 @@ class run:
 
 
 
-        if sigma[2] == 1: 
+        if sigma['siewert1'] == 1: 
             resultsfigns = [9,10]
             plt.figure(9)
             plt.plot(self.psibenchpsis, self.psi0bench, 'kx', label = 'benchmark s = 1')
@@ -379,7 +379,7 @@ class run:
             plt.plot(self.psibenchpsis, self.psi1bench, 'kx', label = 'benchmark s = 1')
             plt.legend()
             plt.show()
-        elif sigma[3] == 1: 
+        elif sigma['siewert2'] == 1: 
             resultsfigns = [11,12]
             plt.figure(11)
             plt.plot(self.psibenchpsis, self.psi0benchinf, 'kx', label = 'benchmark s = inf')
-- 
2.43.0


From a058a836579226ab7c0f977f84da57bee15a732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 20/41] fix: finite-domain square source mesh depends on the
 time only (it stuck for good once near the boundary; NaN when tfinal = t0)

---
 moving_mesh_transport/solver_classes/mesh.py | 35 ++++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 10d2f25..0943bfd 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -193,7 +193,7 @@ class mesh_class(object):
 
             elif self.source_type[2] == 1: #or self.source_type[0]!=0:
                 # self.finite_domain = True # what is the deal with this?
-                if (self.finite_domain == True) and (self.edges[-1] >= self.domain_width/2 or abs(self.edges[-1]-self.domain_width/2)<=1e-2):
+                if (self.finite_domain == True) and self.move_func != 0 and (self.edges[-1] >= self.domain_width/2 or abs(self.edges[-1]-self.domain_width/2)<=1e-2):
                         self.edges = self.edges
                         self.Dedges = self.Dedges_const*0
                     # if t == self.tfinal:
@@ -202,7 +202,10 @@ class mesh_class(object):
                     # else:
                 else:
                     if self.move_func == 0:
-                            if t >= self.t0:
+                            t_arg = t
+                            # the mesh stops when its outermost edge reaches the domain boundary
+                            t = min(t, self.square_source_stop_time())
+                            if t > self.t0:
                                 self.move_middle_edges(t)
                                 tnew1 = t - self.t0 
 
@@ -222,11 +225,14 @@ class mesh_class(object):
                                 self.Dedges = self.c1s * tnew1 + self.Dedges_const
 
 
-                            elif (t < self.t0):
+                            else:
                             
                                 self.edges = self.edges0 + self.Dedges_const*t
                                 self.Dedges = self.Dedges_const
 
+                            if t < t_arg:
+                                self.Dedges = self.Dedges_const*0
+
 
                             # self.Dedges = self.Dedges_const
                             
@@ -266,6 +272,29 @@ class mesh_class(object):
             if self.wave_loc_array[0,3,ix] < self.wave_loc_array[0,3,ix +1]:
                 self.wave_loc_array[0,3,ix] = self.wave_loc_array[0,3,ix +1]
 
+    def square_source_stop_time(self):
+        """
+        First time at which the outermost edge of the finite square source mesh 
+        reaches the domain boundary
+        """
+        v = self.Dedges_const[-1]
+        x_t0 = self.edges0[-1] + v * self.t0
+        if self.domain_width/2 <= x_t0:
+            return max(0.0, (self.domain_width/2 - self.edges0[-1]) / v)
+        if self.tfinal > self.t0:
+            dt = self.tfinal - self.t0
+            acc = 2 * (self.pad - x_t0 - v * dt) / dt**2
+            disc = v**2 + 2 * acc * (self.domain_width/2 - x_t0)
+            if acc == 0.0:
+                tau = (self.domain_width/2 - x_t0) / v
+            elif disc >= 0.0:
+                tau = (math.sqrt(disc) - v) / acc
+            else:
+                tau = dt
+            if 0.0 <= tau < dt:
+                return self.t0 + tau
+        return self.tfinal
+
     def move_middle_edges(self,t):
         middlebin = int(self.N_space/2)
         sidebin = int(middlebin/2)
-- 
2.43.0


From 8c6af8072e441468170e628e1fcfa932151b2772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 21/41] fix: finite-domain shell mesh without cells outside of
 the shell does not move (division by zero)

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 0943bfd..4ee0753 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -178,7 +178,7 @@ class mesh_class(object):
 
             elif self.source_type[1] == 1 or (self.source_type[2] == 1 and self.finite_domain == False and self.move_func == 0):
                 t_move = t
-                if self.finite_domain == True:
+                if self.finite_domain == True and self.Dedges_const[-1] > 0.0:
                     # the mesh stops when its outermost edge reaches the domain boundary
                     t_move = min(t, max(0.0, (self.domain_width/2 - self.edges0[-1]) / self.Dedges_const[-1]))
                 self.edges = self.edges0 + self.Dedges_const*t_move
-- 
2.43.0


From 4d778b6cde0c8c253e134b878b87712cb9708dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 22/41] fix: finite square source mesh that reaches the
 boundary exactly at tfinal keeps its velocity there

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 4ee0753..fe03f25 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -291,7 +291,7 @@ class mesh_class(object):
                 tau = (math.sqrt(disc) - v) / acc
             else:
                 tau = dt
-            if 0.0 <= tau < dt:
+            if 0.0 <= tau < dt * (1.0 - 1e-10):
                 return self.t0 + tau
         return self.tfinal
 
-- 
2.43.0


From 7c85858781a35b653ff57407c507815941b89f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 23/41] fix: opacity triple products vanish when the opacity
 order exceeds i + j (under-integrated for Msigma > 2M + 1)

---
 moving_mesh_transport/solver_classes/opacity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 2158325..21cd3fa 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -99,7 +99,7 @@ class sigma_integrator():
         for i in range(self.M + 1):
             for j in range(self.M + 1):
                 for k in range(self.Msigma + 1):
-                    if (j + k >= i) and (self.both_even_or_odd(i, j, k)):
+                    if (j + k >= i) and (i + j >= k) and (self.both_even_or_odd(i, j, k)):
                         self.integrate_quad(-1, 1, i, j, k)
         # print(self.AAA)
     
-- 
2.43.0


From 1260ea44b823d1e67dbb56f57a4fb988107b2436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 24/41] fix: save boundary, dipole and self-similar solutions
 under their own name (they overwrote plane_IC and square_IC solutions)

---
 .../loading_and_saving/save_output.py                 | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index a60e3d4..51e8f34 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -40,8 +40,15 @@ class save_output:
 
         source_name_list = ["plane_IC", "square_IC", "square_s", "gaussian_IC", "MMS", "gaussian_s"]
         gaussian_sources = ["gaussian_IC", "gaussian_s"]
-        index_of_source_name = np.argmin(np.abs(np.array(source_type)-1))
-        self.source_name = source_name_list[index_of_source_name]  
+        if 1 in np.array(source_type):
+            index_of_source_name = np.argmin(np.abs(np.array(source_type)-1))
+            self.source_name = source_name_list[index_of_source_name]  
+        elif source_type[0] == 2:
+            self.source_name = "dipole"
+        elif source_type[0] == 3:
+            self.source_name = "self_sim_plane"
+        else: # no volume source or initial condition
+            self.source_name = "boundary_source"
               
     def save_RMS(self, RMS_list, energy_RMS_list, N_angles, r_times):
         if (self.tfinal in [1,5,10,1.25, 0.8333333333333334]) or (self.thermal_couple == 1 and self.tfinal == 31.6228) :
-- 
2.43.0


From d9807469642c1eeabb76de5c2c027605580640a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 25/41] fix: uncollided shell solution at the centre of the
 sphere (division by zero when the exit flux is evaluated)

---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index 6c0e820..81b0604 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -232,6 +232,7 @@ class uncollided_solution(object):
         n0 = N0 / (4. * math.pi / 3. * (self.x0 ** 3)) / (4. * math.pi)
         for ix, r in enumerate(xs):
             tt = t + 1e-12
+            r = max(r, 1e-12) # the centre is the limit r -> 0
             mu_crit = min(1., max(-1.,0.5*(tt/r+r/tt-self.x0**2/(r*tt))))
             r2 = r ** 2 + t ** 2 - 2 * mu_crit * r * t
             # if np.sqrt(r2) < self.x0: 
-- 
2.43.0


From e042be147223cc5fff75fe0245051039ea514401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 26/41] fix: S2 uncollided square source after the source is
 off counted particles from beyond the far edge of the source

---
 moving_mesh_transport/solver_classes/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index 26fb20e..795ea6a 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -311,7 +311,8 @@ def uncollided_su_olson_s2(x,t,x0,t0):
             if t - (x0-x)*3/math.sqrt(3) <= 0:
                 return  2*(s2_F(t,  T0) - s2_F(t, 0))
             elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
-                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, 0)
+                arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
+                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, arg2)
             else:
                 return 0
          
-- 
2.43.0


From 963d8f8fbe847b42e81a1e30759d7862e5d7c1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 27/41] fix: uncollided flux of a Gaussian pulse at time zero
 (it was zero)

---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index 81b0604..08be411 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -245,7 +245,10 @@ class uncollided_solution(object):
         sqrtpi = math.sqrt(math.pi)
         for ix in range(xs.size):
             xx = xs[ix]
-            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12)
+            if t == 0: # limit t -> 0
+                temp[ix] = math.exp(-xx*xx/self.sigma**2)
+            else:
+                temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12)
         return temp
         
     def plane_IC_uncollided_solution(self, xs, t):
-- 
2.43.0


From 4cabd2f30f3cce59e7255356499bcfe6f7e73fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 28/41] fix: S2 uncollided square source was zero at points
 that round-off puts just inside the last wave front

---
 moving_mesh_transport/solver_classes/functions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index 795ea6a..a451190 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -310,11 +310,10 @@ def uncollided_su_olson_s2(x,t,x0,t0):
             arg = t - (x0-x)*3/math.sqrt(3)
             if t - (x0-x)*3/math.sqrt(3) <= 0:
                 return  2*(s2_F(t,  T0) - s2_F(t, 0))
-            elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
+            else:
+                arg = min(arg, T0) # T0 can be exceeded by round-off only
                 arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
                 return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, arg2)
-            else:
-                return 0
          
 def su_olson_s2_integrand(tau,x,t,x0,t0):
     return  (np.exp(-t + tau)*(-np.heaviside((-3*x - 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) - np.heaviside((3*x - 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) + np.heaviside((-3*x + 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) + np.heaviside((3*x + 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1)))/2.
-- 
2.43.0


From 611c17cab06e87aa73808418318ff79138f1fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 29/41] fix: run.square_source(All = True) and several runs of
 the square source raised after the last run

---
 .../solver_functions/run_functions.py                | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index c2e7730..133ea02 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -112,12 +112,12 @@ class run:
         else:
             solver.main(uncollided, moving)
             self.get_results(solver)
-        if self.x0 == 2.5:
-            self.olson_henderson_bench(self.tfinal)
-            plt.figure(9)
-            plt.plot(self.xs, self.phi, '-.', label = 'scalar flux', mfc = 'none')
-            plt.legend()
-            plt.show()
+            if self.x0[0] == 2.5:
+                self.olson_henderson_bench(self.tfinal)
+                plt.figure(9)
+                plt.plot(self.xs, self.phi, '-.', label = 'scalar flux', mfc = 'none')
+                plt.legend()
+                plt.show()
      
         # plt.title("square source")
         # plt.legend()
-- 
2.43.0


From 53e168e1ab8c5411dc41679b9d36a77587ba7b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 30/41] fix: run.boundary_source with several runs raised after
 the last run

---
 moving_mesh_transport/solver_functions/run_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 133ea02..d1a645d 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -206,7 +206,7 @@ class run:
             plt.figure(3)
             if solver.sigma_func['constant'] == 1:
                 # plt.plot(self.xs, self.psi[-1,:], '-^')
-                plt.plot(self.xs, fsol(self.xs+self.x0, -1), 'rx')
+                plt.plot(self.xs, fsol(self.xs+self.x0[0], -1), 'rx')
                 plt.show()
             elif solver.sigma_func['gaussian'] == 1:
                 self.steady_state_gaussian_benchmark()
@@ -346,7 +346,7 @@ class run:
         for ix in range(self.xs.size):
             for l in range(self.ws.size):
                 if self.mus[l] < 0:
-                    phi_sol[ix] += self.ws[l] * fsol(self.xs[ix], self.x0, self.mus[l])
+                    phi_sol[ix] += self.ws[l] * fsol(self.xs[ix], self.x0[0], self.mus[l])
             
 
 
-- 
2.43.0


From eb2acc54fb6cceeaa8ae65a07fe2e0041f445396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 31/41] fix: benchmark comparison crashed because the coupling
 dictionary was compared with a number

---
 moving_mesh_transport/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index e8464a4..2054aaf 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -234,7 +234,7 @@ class main_class(parameter_load_class):
                 ##################################################################
                     
                 if self.benchmarking == True:
-                    if self.thermal_couple == 0:
+                    if self.thermal_couple['none'] == 1:
                         if self.c_scaling == False:
                             benchmark_solution = benchmark(np.abs(xs))[0] #benchmark for RMS
                         elif self.c_scaling == True:
@@ -242,7 +242,7 @@ class main_class(parameter_load_class):
 
                         RMS = np.sqrt(np.mean((phi - benchmark_solution)**2))
                     
-                    elif self.thermal_couple == 1:
+                    elif self.thermal_couple['none'] != 1:
                         if  (self.weights == "gauss_lobatto" and (self.sigma != 300 and self.x0[0] != 400)):
                             e_xs = benchmark(np.abs(xs))[2][:,0]
                             phi_bench = benchmark(np.abs(xs))[2][:,1]
@@ -307,7 +307,7 @@ class main_class(parameter_load_class):
                 if self.benchmarking == True:
                     print("RMSE", RMS)
                     if self.major == 'cells':
-                        if self.thermal_couple == 1:
+                        if self.thermal_couple['none'] != 1:
                             print("energy RMSE", RMS_energy)
                             if count > 0:
                                 print("material energy convergence order", "%.2f" % convergence(self.RMS_list_energy[count-1], self.N_spaces[count-1], RMS_energy, N_space))
-- 
2.43.0


From a8c5753fe5ab7875e32c13b9d513c8277dc50895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 32/41] fix: benchmark was replaced by zero at the outermost
 point inside its range

---
 .../loading_and_saving/load_bench.py          | 23 ++++---------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_bench.py b/moving_mesh_transport/loading_and_saving/load_bench.py
index ddb6ef9..1c46153 100644
--- a/moving_mesh_transport/loading_and_saving/load_bench.py
+++ b/moving_mesh_transport/loading_and_saving/load_bench.py
@@ -90,23 +90,10 @@ class load_bench:
         original_xs = self.xs
         
 
-        if abs(xs[-1]-xs[0]) <= 1e-12:
-            symmetric = True
-        else:
-            symmetric = False
-        edge_of_interpolated_sol = original_xs[-1]
-        if symmetric == False:
-            edge_index = np.argmin(np.abs(xs-edge_of_interpolated_sol))
-            self.xs_inside = xs[0:edge_index]
-            stiched_solution[0:edge_index] = self.interpolated_solution(self.xs_inside)
-            stiched_uncollided_solution[0:edge_index] = self.interpolated_uncollided_solution(self.xs_inside)
-        elif symmetric == True:
-            # assuming that the vector is even 
-            middle_index = int(xs.size/2)
-            edge_index = np.argmin(np.abs(xs[middle_index:-1]-edge_of_interpolated_sol))
-            self.xs_inside = xs[middle_index-edge_index:edge_index+middle_index]
-            stiched_solution[middle_index-edge_index:edge_index+middle_index] = self.interpolated_solution(self.xs_inside)
-            stiched_uncollided_solution[middle_index-edge_index:edge_index+middle_index] = self.interpolated_uncollided_solution(self.xs_inside)
+        inside = xs <= original_xs[-1]
+        self.xs_inside = xs[inside]
+        stiched_solution[inside] = self.interpolated_solution(self.xs_inside)
+        stiched_uncollided_solution[inside] = self.interpolated_uncollided_solution(self.xs_inside)
             
         return [stiched_solution, stiched_uncollided_solution]
     
@@ -123,7 +110,7 @@ class load_bench:
         if self.ask_for_bench == True:
             original_xs = self.xs
 
-            if xs[-1] > original_xs[-1]:
+            if np.max(xs) > original_xs[-1]:
                 beyond_solution_domain = True
             else:
                 beyond_solution_domain = False
-- 
2.43.0


From 100d106eafdafa11f3ff6beb9be88a9609abb100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 33/41] fix: restore the CRLF line endings of functions.py
 (12ba5cb changed them by mistake; only its added line remains)

---
 .../solver_classes/functions.py               | 1478 ++++++++---------
 1 file changed, 739 insertions(+), 739 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index a451190..a02dbca 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -1,739 +1,739 @@
-from numba import njit, types, prange
-# import quadpy
-import ctypes
-from numba.extending import get_cython_function_address
-import numpy as np
-import math
-from scipy.special import expi
-import matplotlib.pyplot as plt
-from ..plots.plot_functions.show import show
-import numpy.polynomial as poly
-from functools import partial
-from scipy.special import roots_legendre
-import numpy.polynomial as poly
-import scipy.special as sps
-
-
-
-@njit 
-def integrate_quad(a, b, xs, ws, func1, func2):
-    return (b-a)/2 * np.sum(ws * func1((b-a)/2*xs + (a+b)/2) * func2((b-a)/2*xs + (a+b)/2))
-
-_dble = ctypes.c_double
-addr = get_cython_function_address("scipy.special.cython_special", "__pyx_fuse_0_1eval_legendre")
-functype = ctypes.CFUNCTYPE(_dble, _dble, _dble)
-eval_legendre_float64_fn = functype(addr)
-
-# @njit("float64[:](float64,float64[:])")  
-@njit
-def numba_eval_legendre_float64(n, x):
-      return eval_legendre_float64_fn(n, x)
-  
-addr = get_cython_function_address("scipy.special.cython_special", "__pyx_fuse_1expi")
-functype = ctypes.CFUNCTYPE(_dble, _dble)
-expn_fn = functype(addr)
-
-@njit("float64(float64)")
-def numba_expi(x):
-    return expn_fn(x)
-
-# @njit("float64[:](float64,float64[:],float64,float64)", looplift=False, parallel=False)
-@njit('float64[:](int64, float64[:], float64, float64)')
-def normPn(n,x,a=-1.0,b=1.0):
-    tmp = 0*x
-    for count in prange(x.size):
-        z = (b+a-2*x[count])/(a-b)
-        fact = np.sqrt((2*n+1)/(b-a)) #*(x>=a)*(x<=b)
-        # tmp[count] = sc.eval_legendre(n,z)*fact
-        tmp[count] = numba_eval_legendre_float64(n, z)
-    return tmp * fact
-
-
-
-@njit('float64[:](int64, float64[:], float64, float64)')
-def Pn(n,x,a=-1.0,b=1.0):
-    tmp = 0*x
-    for count in prange(x.size):
-        z = x[count]
-        # tmp[count] = sc.eval_legendre(n,z)*fact
-        tmp[count] = numba_eval_legendre_float64(n, z)
-    return tmp
-@njit('float64(int64, float64, float64, float64)')
-def normPn_scalar(n,x,a=-1.0,b=1.0):
-    tmp = 0.0
-    z = (b+a-2*x)/(a-b)
-    fact = np.sqrt((2*n+1)/(b-a)) #*(x>=a)*(x<=b)
-    # tmp[count] = sc.eval_legendre(n,z)*fact
-    tmp = numba_eval_legendre_float64(n, z)
-    return tmp * fact
-@njit('float64(int64, float64, float64, float64)')
-def Pn_scalar(n,x,a=-1.0,b=1.0):
-    tmp = 0.0
-    z = x
-
-    # tmp[count] = sc.eval_legendre(n,z)*fact
-    tmp = numba_eval_legendre_float64(n, z)
-    return tmp 
-
-@njit
-def dx_normPn(n, x, a = -1.0, b = 1.0):
-    tmp = 0*x
-    fact = np.sqrt((2*n+1)/(b-a))
-    for count in prange(x.size):
-        z = (b+a-2*x[count])/(a-b)
-        if n == 0:
-            tmp[count] = 0.0
-        elif n == 1:
-            tmp[count] = 1.0
-        elif n == 2:
-            tmp[count] = 3*z
-        elif n == 3:
-            tmp[count] = (-3 + 15*z**2)/2.
-        elif n == 4:
-            tmp[count] = (-60*z + 140*z**3)/8.
-        elif n == 5:
-            tmp[count] = (15 - 210*z**2 + 315*z**4)/8.
-        elif n == 6:
-            tmp[count] = (210*z - 1260*z**3 + 1386*z**5)/16.
-        elif n == 7:
-            tmp[count] = (-35 + 945*z**2 - 3465*z**4 + 3003*z**6)/16.
-        elif n == 8:
-            tmp[count] = (-2520*z + 27720*z**3 - 72072*z**5 + 51480*z**7)/128.
-        elif n == 9:
-            tmp[count] = (315 - 13860*z**2 + 90090*z**4 - 180180*z**6 + 109395*z**8)/128.
-        elif n == 10:
-            tmp[count] = (6930*z - 120120*z**3 + 540540*z**5 - 875160*z**7 + 461890*z**9)/256.
-        elif n == 11:
-            tmp[count] = (-693 + 45045*z**2 - 450450*z**4 + 1531530*z**6 - 2078505*z**8 + 969969*z**10)/256.
-
-
-    return tmp * fact
-
-
-
-
-# @njit("float64[:](int64, float64[:], float64[:], float64[:,:,:], int64, float64[:,:])", parallel = True, looplift = True, fastmath = True)
-def make_phi(N_ang, ws, xs, u, M, edges):
-    output = xs*0
-    psi = np.zeros((N_ang, xs.size))
-    for ang in range(N_ang):
-        for count in range(xs.size):
-            idx = np.searchsorted(edges[:], xs[count])
-            if (idx == 0):
-                idx = 1
-            if (idx >= edges.size):
-                idx = edges.size - 1
-            for i in range(M+1):
-                psi[ang, count] += u[ang,idx-1,i] * normPn(i,xs[count:count+1],float(edges[idx-1]),float(edges[idx]))[0]
-    output = np.sum(np.multiply(psi.transpose(), ws), axis = 1)
-    return output
-@njit 
-def surf_func(speed,u,space,j,side,xL,xR,N_space):
-#    print(side)
-    if j ==0:
-        B_right = 1/math.sqrt(xR-xL)
-        B_left = 1/math.sqrt(xR-xL)
-    else:
-         B_right = math.sqrt(2*j+1)/math.sqrt(xR-xL)
-         if j%2 ==0:
-                B_left = math.sqrt(2*j+1)/math.sqrt(xR-xL)
-         else:
-                B_left = -math.sqrt(2*j+1)/math.sqrt(xR-xL)
-    if speed == 0:
-        return 0
-    elif speed > 0 and side == "R":
-        return u[space,j]*B_right
-    elif speed > 0 and side =="L":
-        if space !=0:
-#            print(u[k-1,j])
-            return u[space-1,j]*B_right 
-        else:
-            return 0
-    elif speed < 0 and side =="R":
-        if space != N_space-1:
-            return u[space+1,j]*B_left
-        else:
-            return 0
-    elif speed < 0 and side =="L":
-        return u[space,j]*B_left
-
-@njit
-def LU_surf_func(u,space,N_space,mul,M,xL,xR,dxL,dxR):
-    sumright = 0
-    sumleft = 0
-    rightspeed = mul - dxR
-    leftspeed = mul-dxL
-    for j in range(0,M+1):
-        sumright += surf_func(rightspeed,u,space,j,"R",xL,xR,N_space)
-        sumleft += surf_func(leftspeed,u,space,j,"L",xL,xR,N_space)
-    LU = np.zeros(M+1).transpose()
-    for i in range(0,M+1):
-        if i == 0:
-            B_right = 1/math.sqrt(xR-xL)
-            B_left = 1/math.sqrt(xR-xL)
-        elif j>0:
-            B_right = math.sqrt(2*i+1)/math.sqrt(xR-xL)
-            if i%2 ==0:
-                B_left = math.sqrt(2*i+1)/math.sqrt(xR-xL)
-            else: 
-                B_left = -math.sqrt(2*i+1)/math.sqrt(xR-xL)
-        LU[i] = rightspeed*B_right*(sumright) - leftspeed*B_left*(sumleft)
-    return LU 
-
-def find_nodes(edges, M, geometry):
-    # scheme = quadpy.c1.gauss_legendre(M+1)
-    if M == 0:
-        M = 1
-    if geometry['slab'] == True:
-        xs_quad, ws_quad = poly.legendre.leggauss(M)
-        # xs_quad = scheme.points
-        ixx = xs_quad.size
-        xs_list = np.zeros(ixx*(edges.size-1))
-        for k in range(edges.size-1):
-            xL = edges[k]
-            xR = edges[k+1]
-            xs_list[k*ixx:(k+1)*ixx] = xL + (xs_quad + 1)*(xR - xL)/2
-    
-    elif geometry['sphere'] == True:
-        xs_quad, ws_quad = quadrature(M, 'chebyshev')
-        ixx = xs_quad.size
-        xs_list = np.zeros(ixx*(edges.size-1))
-        for k in range(edges.size-1):
-            xL = edges[k]
-            xR = edges[k+1]
-            xs_list[k*ixx:(k+1)*ixx] = np.sort(xL + (xs_quad + 1)*(xR - xL)/2)
-
-    return xs_list
-
-def convergence(err1, x1, err2, x2):
-    return -math.log(err2/err1)/math.log(x2/x1)
-@njit
-def f1(t, tau, x0):
-    return -x0 * numba_expi(tau-t)
-@njit    
-def f2(t, tau, x0, x):
-    if tau != t:
-        return 0.5*((-x0 + abs(x)) * numba_expi(tau-t) + math.exp(tau - t))
-    else:
-        return 0.5 
-@njit
-def f3(t, tau, x0, x):
-    return math.exp(tau-t)
-@njit
-def uncollided_square_s2(x, t, x0, t0):
-    t_ceiling = min(t,t0)
-    if t > 0:
-        tau_1 = 0.0
-        end = min(t_ceiling, t - abs(x) + x0)
-        if end <= 0.0:
-            return 0.0
-        tau_2 = min(end, t - x0 - abs(x))
-        if tau_2 < 0.0:
-            tau_2 = 0.0
-        tau_3 = min(end, t - x0 + abs(x))
-        if tau_3 < 0.0:
-            tau_3 = 0.0
-        tau_4 = end
-        if tau_4 < 0.0:
-            tau_4 = 0.0
-        t1 = f1(t, tau_2, x0) - f1(t, tau_1, x0)
-        t2 = f2(t, tau_3, x0, x) - f2(t, tau_2, x0, x)
-        t3 = f3(t, tau_4, x0, x) - f3(t, tau_3, x0, x)
-        
-        return t1 + t2 + t3
-    else:
-        return 0.0
-
-@njit
-def s2_F(t,tau):
-    """ integrand for uncollided square s2
-    """
-    return 0.5 * math.exp(-t + tau)
-
-@njit 
-def uncollided_su_olson_s2(x,t,x0,t0):
-    sqrt3 = math.sqrt(3)
-    abx = abs(x)
-    edge = min(t,t0)
-    if t <= t0:
-        if (abx > x0):
-            arg1 = max(0,edge - sqrt3 * (abx - x0))
-            arg2 = max(0,edge - sqrt3 * (abx + x0))
-            # arg2 = max(arg2, edge)
-            # arg2 = min(arg2,t0)
-            # arg1 = min(arg2,t0)
-            return s2_F(t, arg1) - s2_F(t, arg2)
-        
-        elif (abx <= x0):
-            if (edge + sqrt3 * abx <= sqrt3 * x0):
-                return  2 * (s2_F(t, edge) - s2_F(t, 0))
-            elif (edge + sqrt3 * abx > sqrt3 * x0) and (edge - sqrt3 * (abx + x0) > 0):
-                arg2 = edge - sqrt3 * (x0 - abx)
-                arg1 = edge - sqrt3 * (abx + x0)
-                if arg1 <0 or arg2 <0:
-                    print("error negative bounds")
-                return s2_F(t, arg2) - s2_F(t, arg1) + 2 * (s2_F(t, edge) - s2_F(t, arg2))
-            elif (edge + sqrt3 * abx > sqrt3 * x0) and (edge - sqrt3 * (abx + x0) <= 0): 
-                arg1 = max(0,edge - sqrt3 * (x0 - abx))
-                if arg1 <0:
-                    print("error negative bounds")
-                return 2 * (s2_F(t, edge) - s2_F(t, arg1)) + s2_F(t, arg1) - s2_F(t, 0)
-            else:
-                print("missed case")
-    elif t > t0:
-        T0 = edge
-        x = abs(x)
-        if x0 - math.sqrt(3)*(t-T0)/3.0 <= x <= x0 + math.sqrt(3)*(t-T0)/3.0:
-            arg = max(t - (x-x0)*3/math.sqrt(3),0)
-            argp = min(arg, T0)
-            arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
-            arg2p = min(arg2, T0)
-            return s2_F(t,  argp)   - s2_F(t, arg2p) 
-        # elif x <= x0 + math.sqrt(3)*(t-T0)/3.0 and x >= x0 - math.sqrt(3)*(t-T0)/3.0:
-        #     arg = min(t - (x-x0)*3/math.sqrt(3),T0)
-        #     arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
-        #     return s2_F(t,  arg)   - s2_F(t, arg2) 
-
-            
-        elif x > x0 + math.sqrt(3)*(t-T0)/3.0:
-            arg = max(t - (x-x0)*3/math.sqrt(3),0)
-            arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
-            arg = min(arg, edge)
-            arg2 = min(arg2, edge)
-            print(arg, arg2)
-            print('here')
-            return s2_F(t,  arg) - s2_F(t, arg2)
-
-        # elif x < x0 + math.sqrt(3)*(t-T0)/3.0:
-            
-        elif x < x0 - math.sqrt(3)*(t-T0)/3.0:
-            arg = t - (x0-x)*3/math.sqrt(3)
-            if t - (x0-x)*3/math.sqrt(3) <= 0:
-                return  2*(s2_F(t,  T0) - s2_F(t, 0))
-            else:
-                arg = min(arg, T0) # T0 can be exceeded by round-off only
-                arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
-                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, arg2)
-         
-def su_olson_s2_integrand(tau,x,t,x0,t0):
-    return  (np.exp(-t + tau)*(-np.heaviside((-3*x - 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) - np.heaviside((3*x - 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) + np.heaviside((-3*x + 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) + np.heaviside((3*x + 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1)))/2.
-    
-            
-@njit
-def uncollided_s2_gaussian(x,t,sigma,t0):
-    tf = min(t,t0)
-
-    return (math.exp(-(math.sqrt(3)*x) + (3*sigma**2)/4.)*math.sqrt(3*math.pi)*sigma*(math.erf((-2*t + 2*tf + 2*math.sqrt(3)*x - 3*sigma**2)/(2.*math.sqrt(3)*sigma)) + math.exp(2*math.sqrt(3)*x)*(math.erf(t/(math.sqrt(3)*sigma) + x/sigma + (math.sqrt(3)*sigma)/2.) - math.erf((2*t - 2*tf + 2*math.sqrt(3)*x + 3*sigma**2)/(2.*math.sqrt(3)*sigma))) + math.erf((2*math.sqrt(3)*t - 6*x + 3*math.sqrt(3)*sigma**2)/(6.*sigma))))/4.
-
-    
-@njit
-def uncollided_s2_gaussian_thick(x,t,sigma,t0):
-    return (6*t**5 + t**6 + 12*t**3*(10 + 15*x**2 - 3*sigma**2) + 3*t**4*(10 + 15*x**2 - 3*sigma**2) +  18*t*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) +  9*t**2*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) - 9*(-80 - 3*x**2*(40 + 10*x**2 + x**4) + 24*sigma**2 + 9*x**2*(4 + x**2)*sigma**2 - 6*(2 + 3*x**2)*sigma**4 + 18*sigma**6) + math.exp(t0)*(-t**6 + 6*t**5*(-1 + t0) + 6*t0**5 - t0**6 + 12*t0**3*(10 + 15*x**2 - 3*sigma**2) - 3*t0**4*(10 + 15*x**2 - 3*sigma**2) - 3*t**4*(10 + 5*(-2 + t0)*t0 + 15*x**2 - 3*sigma**2) + 4*t**3*(-30 + 5*t0*(6 + (-3 + t0)*t0) + 45*(-1 + t0)*x**2 - 9*(-1 + t0)*sigma**2) + 18*t0*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) - 9*t0**2*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) + 9*(-80 - 3*x**2*(40 + 10*x**2 + x**4) + 24*sigma**2 + 9*x**2*(4 + x**2)*sigma**2 - 6*(2 + 3*x**2)*sigma**4 + 18*sigma**6) - 3*t**2*(5*(24 + t0*(-24 + t0*(12 + (-4 + t0)*t0))) + 45*x**4 - 18*(2 + (-2 + t0)*t0)*sigma**2 + 18*sigma**4 + 18*x**2*(10 + 5*(-2 + t0)*t0 - 3*sigma**2)) + 6*t*(-120 + t0*(120 + t0*(-60 + t0*(20 + (-5 + t0)*t0))) + 45*(-1 + t0)*x**4 - 6*(-6 + t0*(6 + (-3 + t0)*t0))*sigma**2 + 18*(-1 + t0)*sigma**4 + 6*x**2*(-30 + 5*t0*(6 + (-3 + t0)*t0) - 9*(-1 + t0)*sigma**2))))/(162.*math.exp(t)*sigma**6)
-
-@njit        
-def problem_identifier(source_type):
-    if source_type[0] == 1:
-        problem_type = 'plane_IC'
-    elif source_type[1] == 1:
-        problem_type = 'square_IC'
-    elif source_type[2] == 1:
-        problem_type = 'square_source'
-    elif source_type[3] == 1:
-        problem_type = 'gaussian_IC'
-    elif source_type[4] == 1:
-        problem_type = 'gaussian_source'
-
-    else:
-        problem_type =='none'
-    return problem_type
-
-
-# xs  = np.linspace(-1.5,1.5, 100)
-# phi = xs*0
-# phi_u = xs*0
-# tf = 1.0
-# expi1 = xs*0
-# expi2 = xs*0
-
-# for i in range(len(xs)):
-#     expi1[i] = numba_expi(xs[i])
-#     expi2[i] = expi(xs[i])
-
-#     # phi_u[i] = uncollided_square_s2(xs[i], tf, 0.5, tf)
-# plt.figure(1)
-
-# plt.plot(xs, expi1, "--")
-# plt.plot(xs, expi2, ":")
-
-@njit
-def uncollided_su_olson_s2_2(x,t,x0,t0):
-    T0 = min(t, t0)
-    if t > t0:
-        x = abs(x)
-        if x0 - math.sqrt(3)*(t-T0)/3.0 <= abs(x) <= x0 + math.sqrt(3)*(t-T0)/3.0:
-            arg = max(T0 - (abs(x)-x0)*3/math.sqrt(3),0)
-            return s2_F(t,  T0) - s2_F(t, 0) 
-        
-        
-        if abs(x) < x0 - math.sqrt(3)*(t-T0)/3.0:
-            arg = t - (x0-x)*3/math.sqrt(3)
-            
-            if t - (x0-x)*3/math.sqrt(3) <= 0:
-                return  2*(s2_F(t,  T0) - s2_F(t, 0))
-            
-            
-            elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
-                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, 0)
-            
-            
-
-            
-        elif x > x0 + math.sqrt(3)*(t-T0)/3.0:
-            arg = max(t - (x-x0)*3/math.sqrt(3),0)
-            return s2_F(t,  arg) - s2_F(t, 0) 
-       
-        
-    else:
-        return 0.0
-
-def test_s2_sol(t = 10, t0 = 10):
-    import scipy.integrate as integrate
-    
-    # xs = np.linspace(0, t+0.5, 500)
-    xs = np.linspace(50,60, 500)
-    phi = xs*0
-    phi_test = xs*0
-    phi_exact = xs*0
-    x0 = 0.5 
-    for ix in range(xs.size):
-        phi[ix] = uncollided_su_olson_s2(xs[ix],t, x0, t0)
-        # phi_test[ix] = uncollided_su_olson_s2_2(xs[ix],t, x0, t0)
-        phi_exact[ix] = integrate.quad(su_olson_s2_integrand, 0, min(t,t0), args = (xs[ix],t,x0,t0))[0]
-    
-    # plt.plot(xs, phi, '-ob')
-    # plt.plot(xs, phi_exact, '-k')
-    # plt.plot(xs, phi_test, '-or', mfc = 'none')
-    # plt.axvline(x = x0 + math.sqrt(3)*(t-t0)/3.0, color = 'r')
-    # t - (x0-x)*3/math.sqrt(3)
-    
-    print(np.sqrt(np.mean(phi_exact-phi)**2), 'RMSE')
-    # show('uncollided_su_olson_s2_t_10')
-    # plt.show()
-
-def test_square_sol(t = 31.6228, t0 = 10):
-    import scipy.integrate as integrate
-    
-    xs = np.linspace(0, 20, 1000)
-    phi = xs*0
-    phi_test = xs*0
-    phi_exact = xs*0
-    x0 = 0.5
-    for ix in range(xs.size):
-        phi[ix] = uncollided_square_s2(xs[ix],t, x0, t0)
-
-    
-    # plt.plot(xs, phi, '-ob')
-    # plt.plot(xs, phi, '-k')
-    # plt.plot(xs, phi_test, '-or', mfc = 'none')
-    
-    # show('uncollided_square_s2t')
-    # plt.show()
-
-# def time_step_counter(t, division):
-@njit    
-def heaviside_vector(x):
-    return_array = np.ones(x.size)
-    for ix, xx in enumerate(x):
-        if xx < 0:
-            return_array[ix] = 0.0
-    return return_array
-    
-@njit    
-def heaviside_scalar(x):
-    returnval = 1.0
-    if x < 0:
-        returnval = 0.0
-    return returnval
-    
-@njit
-def shaper(angles, spaces, M, thermal):
-    if thermal == True:
-        return np.array([angles + 1 , spaces, M+1])
-    else:
-        return np.array([angles, spaces, M+1])
-    
-@njit 
-
-def eval_Tn(n,x):
-    if n == 0:
-        return  1 + x*0 
-    elif n == 1:
-        return x
-    elif n == 2:
-        return -1 + 2*x**2
-    elif n == 3:
-        return -3*x + 4*x**3
-    elif n == 4:
-        return 1 - 8*x**2 + 8*x**4
-    elif n == 5:
-        return 5*x - 20*x**3 + 16*x**5
-    elif n == 6:
-        return -1 + 18*x**2 - 48*x**4 + 32*x**6
-    elif n == 7:
-        return -7*x + 56*x**3 - 112*x**5 + 64*x**7
-    elif n == 8:
-        return 1 - 32*x**2 + 160*x**4 - 256*x**6 + 128*x**8
-    elif n == 9:
-        return 9*x - 120*x**3 + 432*x**5 - 576*x**7 + 256*x**9
-    elif n == 10:
-        return -1 + 50*x**2 - 400*x**4 + 1120*x**6 - 1280*x**8 + 512*x**10
-    elif n == 11:
-        return -11*x + 220*x**3 - 1232*x**5 + 2816*x**7 - 2816*x**9 + 1024*x**11
-    elif n == 12:
-        return 1 - 72*x**2 + 840*x**4 - 3584*x**6 + 6912*x**8 - 6144*x**10 + 2048*x**12
-    elif n > 12:
-        print('not implemented to this order yet')
-        assert(0)
-
-@njit('float64(int64)')
-def kronecker(i):
-    if i == 0:
-        return 1.0
-    else:
-        return 0.0
-    
-@njit('float64[:](int64, float64[:], float64, float64)')
-def normTn(n,x,a=0,b=1.0):
-    tmp = 0*x
-    norm = (1/ math.sqrt(2))**kronecker(n) * math.sqrt(1/(b-a)) * math.sqrt(2) / math.sqrt(math.pi) 
-    for count in prange(x.size):
-        xx = x[count]
-        # tmp[count] = sc.eval_legendre(n,z)*fact
-        z = 2/(b - a) * xx - (b + a)/(b - a)
-
-        tmp[count] = norm * eval_Tn(n, z)
-    return tmp 
-
-
-
-@njit('float64[:](float64[:], float64, float64)')
-def weight_func_Tn(x, a, b):
-    return (b-a) / np.sqrt((a-x) * (x-b))
-
-@njit 
-def angular_deriv(N_ang, angle, mus, V_old, space):
-
-    if angle != 0 and angle != N_ang -1:
-        h = (mus[angle+1] - mus[angle]) / (mus[angle]-mus[angle-1])
-        right = (1-mus[angle+1]**2)*V_old[angle+1,space,:]
-        middle = (1-mus[angle]**2)*V_old[angle,space,:]
-        left = (1-mus[angle-1]**2)*V_old[angle-1,space,:]
-        dterm =  (right - h**2 * middle - (1-h**2) * left) / (mus[angle+1]-mus[angle]) / (1+h) 
-    
-    elif angle == 0:
-        h = mus[angle+1] - mus[angle]
-        right = (1-mus[angle+1]**2)*V_old[angle+1,space,:]
-        middle = (1-mus[angle]**2)*V_old[angle,space,:]
-        dterm = (right - middle) / h
-
-    elif angle == N_ang - 1:
-        h = mus[angle] - mus[angle-1]
-        right = (1-mus[angle]**2)*V_old[angle,space,:]
-        middle = (1-mus[angle-1]**2)*V_old[angle-1,space,:]
-        dterm = (right - middle) / h
-
-    return dterm
-
-
-@njit
-def finite_diff_uneven_2(x, ix, u, left = False, right = False):
-
-    if left == False and right == False:
-        h = (x[ix+1] - x[ix]) / (x[ix] - x[ix-1])
-        res = (u[ix + 1] - h**2 * u[ix-1] - (1-h**2) * u[ix]) / (x[ix+1]- x[ix]) / (1+h)
-    
-    elif left == True:
-        h = x[ix+1] - x[ix]
-        right = u[ix+1]
-        middle = u[ix]
-        res = (right - middle) / h 
-        # xghost = x[ix] - (x[ix+1]-x[ix])
-        # h = (x[ix+1] - x[ix]) / (x[ix] - xghost)
-        # res = (u[ix + 1] - h**2 * 0 - (1-h**2) * u[ix]) / (x[ix+1]- x[ix]) / (1+h)
-
-    elif right == True:
-        h = x[ix] - x[ix-1]
-        right = u[ix]
-        middle = u[ix-1]
-        res = (right - middle) / h 
-        # xghost = x[ix] + (x[ix] - x[ix-1])
-        # h = (xghost - x[ix]) / (x[ix] - x[ix-1])
-        # res = (0 - h**2 * u[ix-1] - (1-h**2) * u[ix]) / (xghost- x[ix]) / (1+h)
-    return res
-
-@njit
-def finite_diff_uneven(x, ix, psi, left = False, right = False):
-    # if left == False and right == False:
-    #     h = (x[ix+1] - x[ix]) / (x[ix] - x[ix-1])
-    #     res = (u[ix + 1] - h**2 * u[ix-1] - (1-h**2) * u[ix]) / (x[ix+1]- x[ix]) / (1+h)
-    
-    # elif left == True:
-    # if right != True:
-    if left == False and right == False:
-        psip = 0.5 * (psi[ix+1] + psi[ix])
-        psim = 0.5 * (psi[ix] + psi[ix-1])
-        mup = (x[ix+1] - x[ix])*0.5 + x[ix]
-        mum = (x[ix] - x[ix-1])*0.5 + x[ix-1]
-        deltamu = mup - mum
-        res = ((1-mup**2) * psip - (1-mum**2) * psim) / deltamu
-    elif left == True:
-         psip = 0.5 * (psi[ix+1] + psi[ix])
-         mup = (x[ix+1] - x[ix])*0.5 + x[ix]
-         mum =  -1
-         deltamu = mup - mum
-         res = ((1-mup**2) * psip ) / deltamu
-    elif right == True:
-         mup = 1
-         mum =  (x[ix] - x[ix-1])*0.5 + x[ix-1]
-         psim = 0.5 * (psi[ix] + psi[ix-1])
-         deltamu = mup - mum
-         res = (-(1-mum**2) * psim ) / deltamu
-
- 
-    return res
-
-# @njit
-# def gauss_quadrature(integrand, xs_quad, ws_quad, a, b):
-#      argument = (b-a)/2*self.xs_quad + (a+b)/2
-#     mu = self.mus[ang]
-#     self.IC[ang,space,j] = (b-a)/2 * np.sum(self.ws_quad * ic.function(argument, mu) * Tn(j, argument, a, b) * weight_func_Tn(argument, a, b))
-        
-        
-def quadrature(n, name, testing = False):
-    ws = np.zeros(n)
-    xs = np.zeros(n)
-    # roots, weights = roots_legendre(n-1)
-    roots = np.zeros(n)
-    if name == 'gauss_legendre':
-        xs, ws = poly.legendre.leggauss(n)
-    elif name == 'chebyshev':
-        ws = np.zeros(n)
-        xs = np.zeros(n)
-        pi = math.pi
-        for i in range(1,n+1):
-            xs[i-1] = math.cos((2*i-1)/2/n * pi)
-            ws[i-1] = pi/n
-
-
-    elif name == 'gauss_lobatto':
-        if n > 1:
-            # brackets = sps.legendre(n-1).weights[:, 0]
-            xs_brackets, blanl = poly.legendre.leggauss(n-1)
-            brackets = xs_brackets
-        else:
-            brackets = np.array([-1,1])
-        for i in range(n-2):
-            # roots[i+1] = bisection(partial(eval_legendre_deriv, n-1), brackets[i], brackets[i+1])
-            x0 = (brackets[i]+ brackets[i+1])*0.5
-            roots[i+1] =  newtons(x0, partial(eval_legendre_deriv, n-1), partial(eval_second_legendre_deriv, n-1))
-
-        xs = roots
-        xs[0] = -1
-        xs[-1] = 1
-        for nn in range(1, n-1):
-            inn = nn + 1
-            ws[nn] = 2 / (n*(n-1)) / (sps.eval_legendre(n-1, roots[nn]))**2
-        if n > 1:
-            ws[0] = 2/ (n*(n-1))
-            ws[-1] = 2/ (n*(n-1))
-        # if testing == True:
-        #     testxs = quadpy.c1.gauss_lobatto(n).points
-        #     testws = quadpy.c1.gauss_lobatto(n).weights
-        #     np.testing.assert_allclose(testxs, xs)
-        #     np.testing.assert_allclose(testws, ws)
-
-
-        # if testing == True:
-        #     # testxs = quadpy.c1.gauss_legendre(n).points
-        #     # testws = quadpy.c1.gauss_legendre(n).weights
-        #     np.testing.assert_allclose(testxs, xs)
-        #     np.testing.assert_allclose(testws, ws)
-    return xs, ws    
-
-def bisection(f, a, b, tol=1e-14):
-    assert np.sign(f(a)) != np.sign(f(b))
-    while b-a > tol:
-        m = a + (b-a)/2
-        fm = f(m)
-        if np.sign(f(a)) != np.sign(fm):
-            b = m
-        else:
-            a = m
-            
-    return m
-
-def eval_legendre_deriv(n, x):
-    return (
-        (x*sps.eval_legendre(n, x) - sps.eval_legendre(n-1, x))
-        /
-        ((x**2-1)/n))
-
-def eval_second_legendre_deriv(n, x):
-    return (n*(-((1 + x**2)*sps.eval_legendre(n, x)) + 2*x*sps.eval_legendre(n-1, x) + (-1 + x**2)*(x*eval_legendre_deriv(n, x) - eval_legendre_deriv(n-1, x))))/(-1 + x**2)**2
-
-def newtons2(x0, f, fprime, tol = 1e-14):
-    old_guess = x0
-    new_guess = 1000
-    it = 0
-    while abs(old_guess-new_guess) > tol:
-        new_guess = old_guess - f(old_guess) / fprime(old_guess)
-        old_guess = new_guess
-    return old_guess
-
-def newtons(x0, f, fprime, tol = 1e-14):
-    def iterate(x0, f, fprime):
-        return x0 - f(x0) / fprime(x0)
-    tol_met = False
-    while tol_met == False:
-        new_x0 = iterate(x0, f, fprime)
-        if abs(new_x0-x0) <= tol:
-            tol_met = True
-        x0 = new_x0
-    return x0
-
-@njit
-def sqrt_two_mass_func(i, j):
-    rttwo = math.sqrt(2)
-    if ((i == 0) and (j == 0)) or ((i != 0) and (j != 0)):
-        return 1.0
-    elif (i == 0) and (j != 0):
-        if j%2 == 0:
-            return rttwo
-        else:
-            return 1/rttwo
-    elif (j == 0) and (i!=0):
-        if i%2 == 0:
-            return rttwo
-        else:
-            return 1/rttwo
-    else:
-        assert(0)
-
-@njit
-def rttwo_mistake_undoer(i,j):
-    if ((i == 0) and (j == 0)) or ((i != 0) and (j != 0)):
-        return 1.0
-    elif (i == 0) and (j != 0):
-        if j%2 == 0:
-            return 2.0
-        else:
-            return 1.0
-    elif (j == 0) and (i!=0):
-        if i%2 == 0:
-            return 2.0
-        else:
-            return 1.0
-    else:
-        assert(0)
-        
-
+from numba import njit, types, prange
+# import quadpy
+import ctypes
+from numba.extending import get_cython_function_address
+import numpy as np
+import math
+from scipy.special import expi
+import matplotlib.pyplot as plt
+from ..plots.plot_functions.show import show
+import numpy.polynomial as poly
+from functools import partial
+from scipy.special import roots_legendre
+import numpy.polynomial as poly
+import scipy.special as sps
+
+
+
+@njit 
+def integrate_quad(a, b, xs, ws, func1, func2):
+    return (b-a)/2 * np.sum(ws * func1((b-a)/2*xs + (a+b)/2) * func2((b-a)/2*xs + (a+b)/2))
+
+_dble = ctypes.c_double
+addr = get_cython_function_address("scipy.special.cython_special", "__pyx_fuse_0_1eval_legendre")
+functype = ctypes.CFUNCTYPE(_dble, _dble, _dble)
+eval_legendre_float64_fn = functype(addr)
+
+# @njit("float64[:](float64,float64[:])")  
+@njit
+def numba_eval_legendre_float64(n, x):
+      return eval_legendre_float64_fn(n, x)
+  
+addr = get_cython_function_address("scipy.special.cython_special", "__pyx_fuse_1expi")
+functype = ctypes.CFUNCTYPE(_dble, _dble)
+expn_fn = functype(addr)
+
+@njit("float64(float64)")
+def numba_expi(x):
+    return expn_fn(x)
+
+# @njit("float64[:](float64,float64[:],float64,float64)", looplift=False, parallel=False)
+@njit('float64[:](int64, float64[:], float64, float64)')
+def normPn(n,x,a=-1.0,b=1.0):
+    tmp = 0*x
+    for count in prange(x.size):
+        z = (b+a-2*x[count])/(a-b)
+        fact = np.sqrt((2*n+1)/(b-a)) #*(x>=a)*(x<=b)
+        # tmp[count] = sc.eval_legendre(n,z)*fact
+        tmp[count] = numba_eval_legendre_float64(n, z)
+    return tmp * fact
+
+
+
+@njit('float64[:](int64, float64[:], float64, float64)')
+def Pn(n,x,a=-1.0,b=1.0):
+    tmp = 0*x
+    for count in prange(x.size):
+        z = x[count]
+        # tmp[count] = sc.eval_legendre(n,z)*fact
+        tmp[count] = numba_eval_legendre_float64(n, z)
+    return tmp
+@njit('float64(int64, float64, float64, float64)')
+def normPn_scalar(n,x,a=-1.0,b=1.0):
+    tmp = 0.0
+    z = (b+a-2*x)/(a-b)
+    fact = np.sqrt((2*n+1)/(b-a)) #*(x>=a)*(x<=b)
+    # tmp[count] = sc.eval_legendre(n,z)*fact
+    tmp = numba_eval_legendre_float64(n, z)
+    return tmp * fact
+@njit('float64(int64, float64, float64, float64)')
+def Pn_scalar(n,x,a=-1.0,b=1.0):
+    tmp = 0.0
+    z = x
+
+    # tmp[count] = sc.eval_legendre(n,z)*fact
+    tmp = numba_eval_legendre_float64(n, z)
+    return tmp 
+
+@njit
+def dx_normPn(n, x, a = -1.0, b = 1.0):
+    tmp = 0*x
+    fact = np.sqrt((2*n+1)/(b-a))
+    for count in prange(x.size):
+        z = (b+a-2*x[count])/(a-b)
+        if n == 0:
+            tmp[count] = 0.0
+        elif n == 1:
+            tmp[count] = 1.0
+        elif n == 2:
+            tmp[count] = 3*z
+        elif n == 3:
+            tmp[count] = (-3 + 15*z**2)/2.
+        elif n == 4:
+            tmp[count] = (-60*z + 140*z**3)/8.
+        elif n == 5:
+            tmp[count] = (15 - 210*z**2 + 315*z**4)/8.
+        elif n == 6:
+            tmp[count] = (210*z - 1260*z**3 + 1386*z**5)/16.
+        elif n == 7:
+            tmp[count] = (-35 + 945*z**2 - 3465*z**4 + 3003*z**6)/16.
+        elif n == 8:
+            tmp[count] = (-2520*z + 27720*z**3 - 72072*z**5 + 51480*z**7)/128.
+        elif n == 9:
+            tmp[count] = (315 - 13860*z**2 + 90090*z**4 - 180180*z**6 + 109395*z**8)/128.
+        elif n == 10:
+            tmp[count] = (6930*z - 120120*z**3 + 540540*z**5 - 875160*z**7 + 461890*z**9)/256.
+        elif n == 11:
+            tmp[count] = (-693 + 45045*z**2 - 450450*z**4 + 1531530*z**6 - 2078505*z**8 + 969969*z**10)/256.
+
+
+    return tmp * fact
+
+
+
+
+# @njit("float64[:](int64, float64[:], float64[:], float64[:,:,:], int64, float64[:,:])", parallel = True, looplift = True, fastmath = True)
+def make_phi(N_ang, ws, xs, u, M, edges):
+    output = xs*0
+    psi = np.zeros((N_ang, xs.size))
+    for ang in range(N_ang):
+        for count in range(xs.size):
+            idx = np.searchsorted(edges[:], xs[count])
+            if (idx == 0):
+                idx = 1
+            if (idx >= edges.size):
+                idx = edges.size - 1
+            for i in range(M+1):
+                psi[ang, count] += u[ang,idx-1,i] * normPn(i,xs[count:count+1],float(edges[idx-1]),float(edges[idx]))[0]
+    output = np.sum(np.multiply(psi.transpose(), ws), axis = 1)
+    return output
+@njit 
+def surf_func(speed,u,space,j,side,xL,xR,N_space):
+#    print(side)
+    if j ==0:
+        B_right = 1/math.sqrt(xR-xL)
+        B_left = 1/math.sqrt(xR-xL)
+    else:
+         B_right = math.sqrt(2*j+1)/math.sqrt(xR-xL)
+         if j%2 ==0:
+                B_left = math.sqrt(2*j+1)/math.sqrt(xR-xL)
+         else:
+                B_left = -math.sqrt(2*j+1)/math.sqrt(xR-xL)
+    if speed == 0:
+        return 0
+    elif speed > 0 and side == "R":
+        return u[space,j]*B_right
+    elif speed > 0 and side =="L":
+        if space !=0:
+#            print(u[k-1,j])
+            return u[space-1,j]*B_right 
+        else:
+            return 0
+    elif speed < 0 and side =="R":
+        if space != N_space-1:
+            return u[space+1,j]*B_left
+        else:
+            return 0
+    elif speed < 0 and side =="L":
+        return u[space,j]*B_left
+
+@njit
+def LU_surf_func(u,space,N_space,mul,M,xL,xR,dxL,dxR):
+    sumright = 0
+    sumleft = 0
+    rightspeed = mul - dxR
+    leftspeed = mul-dxL
+    for j in range(0,M+1):
+        sumright += surf_func(rightspeed,u,space,j,"R",xL,xR,N_space)
+        sumleft += surf_func(leftspeed,u,space,j,"L",xL,xR,N_space)
+    LU = np.zeros(M+1).transpose()
+    for i in range(0,M+1):
+        if i == 0:
+            B_right = 1/math.sqrt(xR-xL)
+            B_left = 1/math.sqrt(xR-xL)
+        elif j>0:
+            B_right = math.sqrt(2*i+1)/math.sqrt(xR-xL)
+            if i%2 ==0:
+                B_left = math.sqrt(2*i+1)/math.sqrt(xR-xL)
+            else: 
+                B_left = -math.sqrt(2*i+1)/math.sqrt(xR-xL)
+        LU[i] = rightspeed*B_right*(sumright) - leftspeed*B_left*(sumleft)
+    return LU 
+
+def find_nodes(edges, M, geometry):
+    # scheme = quadpy.c1.gauss_legendre(M+1)
+    if M == 0:
+        M = 1
+    if geometry['slab'] == True:
+        xs_quad, ws_quad = poly.legendre.leggauss(M)
+        # xs_quad = scheme.points
+        ixx = xs_quad.size
+        xs_list = np.zeros(ixx*(edges.size-1))
+        for k in range(edges.size-1):
+            xL = edges[k]
+            xR = edges[k+1]
+            xs_list[k*ixx:(k+1)*ixx] = xL + (xs_quad + 1)*(xR - xL)/2
+    
+    elif geometry['sphere'] == True:
+        xs_quad, ws_quad = quadrature(M, 'chebyshev')
+        ixx = xs_quad.size
+        xs_list = np.zeros(ixx*(edges.size-1))
+        for k in range(edges.size-1):
+            xL = edges[k]
+            xR = edges[k+1]
+            xs_list[k*ixx:(k+1)*ixx] = np.sort(xL + (xs_quad + 1)*(xR - xL)/2)
+
+    return xs_list
+
+def convergence(err1, x1, err2, x2):
+    return -math.log(err2/err1)/math.log(x2/x1)
+@njit
+def f1(t, tau, x0):
+    return -x0 * numba_expi(tau-t)
+@njit    
+def f2(t, tau, x0, x):
+    if tau != t:
+        return 0.5*((-x0 + abs(x)) * numba_expi(tau-t) + math.exp(tau - t))
+    else:
+        return 0.5 
+@njit
+def f3(t, tau, x0, x):
+    return math.exp(tau-t)
+@njit
+def uncollided_square_s2(x, t, x0, t0):
+    t_ceiling = min(t,t0)
+    if t > 0:
+        tau_1 = 0.0
+        end = min(t_ceiling, t - abs(x) + x0)
+        if end <= 0.0:
+            return 0.0
+        tau_2 = min(end, t - x0 - abs(x))
+        if tau_2 < 0.0:
+            tau_2 = 0.0
+        tau_3 = min(end, t - x0 + abs(x))
+        if tau_3 < 0.0:
+            tau_3 = 0.0
+        tau_4 = end
+        if tau_4 < 0.0:
+            tau_4 = 0.0
+        t1 = f1(t, tau_2, x0) - f1(t, tau_1, x0)
+        t2 = f2(t, tau_3, x0, x) - f2(t, tau_2, x0, x)
+        t3 = f3(t, tau_4, x0, x) - f3(t, tau_3, x0, x)
+        
+        return t1 + t2 + t3
+    else:
+        return 0.0
+
+@njit
+def s2_F(t,tau):
+    """ integrand for uncollided square s2
+    """
+    return 0.5 * math.exp(-t + tau)
+
+@njit 
+def uncollided_su_olson_s2(x,t,x0,t0):
+    sqrt3 = math.sqrt(3)
+    abx = abs(x)
+    edge = min(t,t0)
+    if t <= t0:
+        if (abx > x0):
+            arg1 = max(0,edge - sqrt3 * (abx - x0))
+            arg2 = max(0,edge - sqrt3 * (abx + x0))
+            # arg2 = max(arg2, edge)
+            # arg2 = min(arg2,t0)
+            # arg1 = min(arg2,t0)
+            return s2_F(t, arg1) - s2_F(t, arg2)
+        
+        elif (abx <= x0):
+            if (edge + sqrt3 * abx <= sqrt3 * x0):
+                return  2 * (s2_F(t, edge) - s2_F(t, 0))
+            elif (edge + sqrt3 * abx > sqrt3 * x0) and (edge - sqrt3 * (abx + x0) > 0):
+                arg2 = edge - sqrt3 * (x0 - abx)
+                arg1 = edge - sqrt3 * (abx + x0)
+                if arg1 <0 or arg2 <0:
+                    print("error negative bounds")
+                return s2_F(t, arg2) - s2_F(t, arg1) + 2 * (s2_F(t, edge) - s2_F(t, arg2))
+            elif (edge + sqrt3 * abx > sqrt3 * x0) and (edge - sqrt3 * (abx + x0) <= 0): 
+                arg1 = max(0,edge - sqrt3 * (x0 - abx))
+                if arg1 <0:
+                    print("error negative bounds")
+                return 2 * (s2_F(t, edge) - s2_F(t, arg1)) + s2_F(t, arg1) - s2_F(t, 0)
+            else:
+                print("missed case")
+    elif t > t0:
+        T0 = edge
+        x = abs(x)
+        if x0 - math.sqrt(3)*(t-T0)/3.0 <= x <= x0 + math.sqrt(3)*(t-T0)/3.0:
+            arg = max(t - (x-x0)*3/math.sqrt(3),0)
+            argp = min(arg, T0)
+            arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
+            arg2p = min(arg2, T0)
+            return s2_F(t,  argp)   - s2_F(t, arg2p) 
+        # elif x <= x0 + math.sqrt(3)*(t-T0)/3.0 and x >= x0 - math.sqrt(3)*(t-T0)/3.0:
+        #     arg = min(t - (x-x0)*3/math.sqrt(3),T0)
+        #     arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
+        #     return s2_F(t,  arg)   - s2_F(t, arg2) 
+
+            
+        elif x > x0 + math.sqrt(3)*(t-T0)/3.0:
+            arg = max(t - (x-x0)*3/math.sqrt(3),0)
+            arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
+            arg = min(arg, edge)
+            arg2 = min(arg2, edge)
+            print(arg, arg2)
+            print('here')
+            return s2_F(t,  arg) - s2_F(t, arg2)
+
+        # elif x < x0 + math.sqrt(3)*(t-T0)/3.0:
+            
+        elif x < x0 - math.sqrt(3)*(t-T0)/3.0:
+            arg = t - (x0-x)*3/math.sqrt(3)
+            if t - (x0-x)*3/math.sqrt(3) <= 0:
+                return  2*(s2_F(t,  T0) - s2_F(t, 0))
+            else:
+                arg = min(arg, T0) # T0 can be exceeded by round-off only
+                arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
+                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, arg2)
+         
+def su_olson_s2_integrand(tau,x,t,x0,t0):
+    return  (np.exp(-t + tau)*(-np.heaviside((-3*x - 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) - np.heaviside((3*x - 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) + np.heaviside((-3*x + 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1) + np.heaviside((3*x + 3*x0 + math.sqrt(3)*(t - tau))/(t - tau),1)))/2.
+    
+            
+@njit
+def uncollided_s2_gaussian(x,t,sigma,t0):
+    tf = min(t,t0)
+
+    return (math.exp(-(math.sqrt(3)*x) + (3*sigma**2)/4.)*math.sqrt(3*math.pi)*sigma*(math.erf((-2*t + 2*tf + 2*math.sqrt(3)*x - 3*sigma**2)/(2.*math.sqrt(3)*sigma)) + math.exp(2*math.sqrt(3)*x)*(math.erf(t/(math.sqrt(3)*sigma) + x/sigma + (math.sqrt(3)*sigma)/2.) - math.erf((2*t - 2*tf + 2*math.sqrt(3)*x + 3*sigma**2)/(2.*math.sqrt(3)*sigma))) + math.erf((2*math.sqrt(3)*t - 6*x + 3*math.sqrt(3)*sigma**2)/(6.*sigma))))/4.
+
+    
+@njit
+def uncollided_s2_gaussian_thick(x,t,sigma,t0):
+    return (6*t**5 + t**6 + 12*t**3*(10 + 15*x**2 - 3*sigma**2) + 3*t**4*(10 + 15*x**2 - 3*sigma**2) +  18*t*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) +  9*t**2*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) - 9*(-80 - 3*x**2*(40 + 10*x**2 + x**4) + 24*sigma**2 + 9*x**2*(4 + x**2)*sigma**2 - 6*(2 + 3*x**2)*sigma**4 + 18*sigma**6) + math.exp(t0)*(-t**6 + 6*t**5*(-1 + t0) + 6*t0**5 - t0**6 + 12*t0**3*(10 + 15*x**2 - 3*sigma**2) - 3*t0**4*(10 + 15*x**2 - 3*sigma**2) - 3*t**4*(10 + 5*(-2 + t0)*t0 + 15*x**2 - 3*sigma**2) + 4*t**3*(-30 + 5*t0*(6 + (-3 + t0)*t0) + 45*(-1 + t0)*x**2 - 9*(-1 + t0)*sigma**2) + 18*t0*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) - 9*t0**2*(40 + 15*x**2*(4 + x**2) - 6*(2 + 3*x**2)*sigma**2 + 6*sigma**4) + 9*(-80 - 3*x**2*(40 + 10*x**2 + x**4) + 24*sigma**2 + 9*x**2*(4 + x**2)*sigma**2 - 6*(2 + 3*x**2)*sigma**4 + 18*sigma**6) - 3*t**2*(5*(24 + t0*(-24 + t0*(12 + (-4 + t0)*t0))) + 45*x**4 - 18*(2 + (-2 + t0)*t0)*sigma**2 + 18*sigma**4 + 18*x**2*(10 + 5*(-2 + t0)*t0 - 3*sigma**2)) + 6*t*(-120 + t0*(120 + t0*(-60 + t0*(20 + (-5 + t0)*t0))) + 45*(-1 + t0)*x**4 - 6*(-6 + t0*(6 + (-3 + t0)*t0))*sigma**2 + 18*(-1 + t0)*sigma**4 + 6*x**2*(-30 + 5*t0*(6 + (-3 + t0)*t0) - 9*(-1 + t0)*sigma**2))))/(162.*math.exp(t)*sigma**6)
+
+@njit        
+def problem_identifier(source_type):
+    if source_type[0] == 1:
+        problem_type = 'plane_IC'
+    elif source_type[1] == 1:
+        problem_type = 'square_IC'
+    elif source_type[2] == 1:
+        problem_type = 'square_source'
+    elif source_type[3] == 1:
+        problem_type = 'gaussian_IC'
+    elif source_type[4] == 1:
+        problem_type = 'gaussian_source'
+
+    else:
+        problem_type =='none'
+    return problem_type
+
+
+# xs  = np.linspace(-1.5,1.5, 100)
+# phi = xs*0
+# phi_u = xs*0
+# tf = 1.0
+# expi1 = xs*0
+# expi2 = xs*0
+
+# for i in range(len(xs)):
+#     expi1[i] = numba_expi(xs[i])
+#     expi2[i] = expi(xs[i])
+
+#     # phi_u[i] = uncollided_square_s2(xs[i], tf, 0.5, tf)
+# plt.figure(1)
+
+# plt.plot(xs, expi1, "--")
+# plt.plot(xs, expi2, ":")
+
+@njit
+def uncollided_su_olson_s2_2(x,t,x0,t0):
+    T0 = min(t, t0)
+    if t > t0:
+        x = abs(x)
+        if x0 - math.sqrt(3)*(t-T0)/3.0 <= abs(x) <= x0 + math.sqrt(3)*(t-T0)/3.0:
+            arg = max(T0 - (abs(x)-x0)*3/math.sqrt(3),0)
+            return s2_F(t,  T0) - s2_F(t, 0) 
+        
+        
+        if abs(x) < x0 - math.sqrt(3)*(t-T0)/3.0:
+            arg = t - (x0-x)*3/math.sqrt(3)
+            
+            if t - (x0-x)*3/math.sqrt(3) <= 0:
+                return  2*(s2_F(t,  T0) - s2_F(t, 0))
+            
+            
+            elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
+                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, 0)
+            
+            
+
+            
+        elif x > x0 + math.sqrt(3)*(t-T0)/3.0:
+            arg = max(t - (x-x0)*3/math.sqrt(3),0)
+            return s2_F(t,  arg) - s2_F(t, 0) 
+       
+        
+    else:
+        return 0.0
+
+def test_s2_sol(t = 10, t0 = 10):
+    import scipy.integrate as integrate
+    
+    # xs = np.linspace(0, t+0.5, 500)
+    xs = np.linspace(50,60, 500)
+    phi = xs*0
+    phi_test = xs*0
+    phi_exact = xs*0
+    x0 = 0.5 
+    for ix in range(xs.size):
+        phi[ix] = uncollided_su_olson_s2(xs[ix],t, x0, t0)
+        # phi_test[ix] = uncollided_su_olson_s2_2(xs[ix],t, x0, t0)
+        phi_exact[ix] = integrate.quad(su_olson_s2_integrand, 0, min(t,t0), args = (xs[ix],t,x0,t0))[0]
+    
+    # plt.plot(xs, phi, '-ob')
+    # plt.plot(xs, phi_exact, '-k')
+    # plt.plot(xs, phi_test, '-or', mfc = 'none')
+    # plt.axvline(x = x0 + math.sqrt(3)*(t-t0)/3.0, color = 'r')
+    # t - (x0-x)*3/math.sqrt(3)
+    
+    print(np.sqrt(np.mean(phi_exact-phi)**2), 'RMSE')
+    # show('uncollided_su_olson_s2_t_10')
+    # plt.show()
+
+def test_square_sol(t = 31.6228, t0 = 10):
+    import scipy.integrate as integrate
+    
+    xs = np.linspace(0, 20, 1000)
+    phi = xs*0
+    phi_test = xs*0
+    phi_exact = xs*0
+    x0 = 0.5
+    for ix in range(xs.size):
+        phi[ix] = uncollided_square_s2(xs[ix],t, x0, t0)
+
+    
+    # plt.plot(xs, phi, '-ob')
+    # plt.plot(xs, phi, '-k')
+    # plt.plot(xs, phi_test, '-or', mfc = 'none')
+    
+    # show('uncollided_square_s2t')
+    # plt.show()
+
+# def time_step_counter(t, division):
+@njit    
+def heaviside_vector(x):
+    return_array = np.ones(x.size)
+    for ix, xx in enumerate(x):
+        if xx < 0:
+            return_array[ix] = 0.0
+    return return_array
+    
+@njit    
+def heaviside_scalar(x):
+    returnval = 1.0
+    if x < 0:
+        returnval = 0.0
+    return returnval
+    
+@njit
+def shaper(angles, spaces, M, thermal):
+    if thermal == True:
+        return np.array([angles + 1 , spaces, M+1])
+    else:
+        return np.array([angles, spaces, M+1])
+    
+@njit 
+
+def eval_Tn(n,x):
+    if n == 0:
+        return  1 + x*0 
+    elif n == 1:
+        return x
+    elif n == 2:
+        return -1 + 2*x**2
+    elif n == 3:
+        return -3*x + 4*x**3
+    elif n == 4:
+        return 1 - 8*x**2 + 8*x**4
+    elif n == 5:
+        return 5*x - 20*x**3 + 16*x**5
+    elif n == 6:
+        return -1 + 18*x**2 - 48*x**4 + 32*x**6
+    elif n == 7:
+        return -7*x + 56*x**3 - 112*x**5 + 64*x**7
+    elif n == 8:
+        return 1 - 32*x**2 + 160*x**4 - 256*x**6 + 128*x**8
+    elif n == 9:
+        return 9*x - 120*x**3 + 432*x**5 - 576*x**7 + 256*x**9
+    elif n == 10:
+        return -1 + 50*x**2 - 400*x**4 + 1120*x**6 - 1280*x**8 + 512*x**10
+    elif n == 11:
+        return -11*x + 220*x**3 - 1232*x**5 + 2816*x**7 - 2816*x**9 + 1024*x**11
+    elif n == 12:
+        return 1 - 72*x**2 + 840*x**4 - 3584*x**6 + 6912*x**8 - 6144*x**10 + 2048*x**12
+    elif n > 12:
+        print('not implemented to this order yet')
+        assert(0)
+
+@njit('float64(int64)')
+def kronecker(i):
+    if i == 0:
+        return 1.0
+    else:
+        return 0.0
+    
+@njit('float64[:](int64, float64[:], float64, float64)')
+def normTn(n,x,a=0,b=1.0):
+    tmp = 0*x
+    norm = (1/ math.sqrt(2))**kronecker(n) * math.sqrt(1/(b-a)) * math.sqrt(2) / math.sqrt(math.pi) 
+    for count in prange(x.size):
+        xx = x[count]
+        # tmp[count] = sc.eval_legendre(n,z)*fact
+        z = 2/(b - a) * xx - (b + a)/(b - a)
+
+        tmp[count] = norm * eval_Tn(n, z)
+    return tmp 
+
+
+
+@njit('float64[:](float64[:], float64, float64)')
+def weight_func_Tn(x, a, b):
+    return (b-a) / np.sqrt((a-x) * (x-b))
+
+@njit 
+def angular_deriv(N_ang, angle, mus, V_old, space):
+
+    if angle != 0 and angle != N_ang -1:
+        h = (mus[angle+1] - mus[angle]) / (mus[angle]-mus[angle-1])
+        right = (1-mus[angle+1]**2)*V_old[angle+1,space,:]
+        middle = (1-mus[angle]**2)*V_old[angle,space,:]
+        left = (1-mus[angle-1]**2)*V_old[angle-1,space,:]
+        dterm =  (right - h**2 * middle - (1-h**2) * left) / (mus[angle+1]-mus[angle]) / (1+h) 
+    
+    elif angle == 0:
+        h = mus[angle+1] - mus[angle]
+        right = (1-mus[angle+1]**2)*V_old[angle+1,space,:]
+        middle = (1-mus[angle]**2)*V_old[angle,space,:]
+        dterm = (right - middle) / h
+
+    elif angle == N_ang - 1:
+        h = mus[angle] - mus[angle-1]
+        right = (1-mus[angle]**2)*V_old[angle,space,:]
+        middle = (1-mus[angle-1]**2)*V_old[angle-1,space,:]
+        dterm = (right - middle) / h
+
+    return dterm
+
+
+@njit
+def finite_diff_uneven_2(x, ix, u, left = False, right = False):
+
+    if left == False and right == False:
+        h = (x[ix+1] - x[ix]) / (x[ix] - x[ix-1])
+        res = (u[ix + 1] - h**2 * u[ix-1] - (1-h**2) * u[ix]) / (x[ix+1]- x[ix]) / (1+h)
+    
+    elif left == True:
+        h = x[ix+1] - x[ix]
+        right = u[ix+1]
+        middle = u[ix]
+        res = (right - middle) / h 
+        # xghost = x[ix] - (x[ix+1]-x[ix])
+        # h = (x[ix+1] - x[ix]) / (x[ix] - xghost)
+        # res = (u[ix + 1] - h**2 * 0 - (1-h**2) * u[ix]) / (x[ix+1]- x[ix]) / (1+h)
+
+    elif right == True:
+        h = x[ix] - x[ix-1]
+        right = u[ix]
+        middle = u[ix-1]
+        res = (right - middle) / h 
+        # xghost = x[ix] + (x[ix] - x[ix-1])
+        # h = (xghost - x[ix]) / (x[ix] - x[ix-1])
+        # res = (0 - h**2 * u[ix-1] - (1-h**2) * u[ix]) / (xghost- x[ix]) / (1+h)
+    return res
+
+@njit
+def finite_diff_uneven(x, ix, psi, left = False, right = False):
+    # if left == False and right == False:
+    #     h = (x[ix+1] - x[ix]) / (x[ix] - x[ix-1])
+    #     res = (u[ix + 1] - h**2 * u[ix-1] - (1-h**2) * u[ix]) / (x[ix+1]- x[ix]) / (1+h)
+    
+    # elif left == True:
+    # if right != True:
+    if left == False and right == False:
+        psip = 0.5 * (psi[ix+1] + psi[ix])
+        psim = 0.5 * (psi[ix] + psi[ix-1])
+        mup = (x[ix+1] - x[ix])*0.5 + x[ix]
+        mum = (x[ix] - x[ix-1])*0.5 + x[ix-1]
+        deltamu = mup - mum
+        res = ((1-mup**2) * psip - (1-mum**2) * psim) / deltamu
+    elif left == True:
+         psip = 0.5 * (psi[ix+1] + psi[ix])
+         mup = (x[ix+1] - x[ix])*0.5 + x[ix]
+         mum =  -1
+         deltamu = mup - mum
+         res = ((1-mup**2) * psip ) / deltamu
+    elif right == True:
+         mup = 1
+         mum =  (x[ix] - x[ix-1])*0.5 + x[ix-1]
+         psim = 0.5 * (psi[ix] + psi[ix-1])
+         deltamu = mup - mum
+         res = (-(1-mum**2) * psim ) / deltamu
+
+ 
+    return res
+
+# @njit
+# def gauss_quadrature(integrand, xs_quad, ws_quad, a, b):
+#      argument = (b-a)/2*self.xs_quad + (a+b)/2
+#     mu = self.mus[ang]
+#     self.IC[ang,space,j] = (b-a)/2 * np.sum(self.ws_quad * ic.function(argument, mu) * Tn(j, argument, a, b) * weight_func_Tn(argument, a, b))
+        
+        
+def quadrature(n, name, testing = False):
+    ws = np.zeros(n)
+    xs = np.zeros(n)
+    # roots, weights = roots_legendre(n-1)
+    roots = np.zeros(n)
+    if name == 'gauss_legendre':
+        xs, ws = poly.legendre.leggauss(n)
+    elif name == 'chebyshev':
+        ws = np.zeros(n)
+        xs = np.zeros(n)
+        pi = math.pi
+        for i in range(1,n+1):
+            xs[i-1] = math.cos((2*i-1)/2/n * pi)
+            ws[i-1] = pi/n
+
+
+    elif name == 'gauss_lobatto':
+        if n > 1:
+            # brackets = sps.legendre(n-1).weights[:, 0]
+            xs_brackets, blanl = poly.legendre.leggauss(n-1)
+            brackets = xs_brackets
+        else:
+            brackets = np.array([-1,1])
+        for i in range(n-2):
+            # roots[i+1] = bisection(partial(eval_legendre_deriv, n-1), brackets[i], brackets[i+1])
+            x0 = (brackets[i]+ brackets[i+1])*0.5
+            roots[i+1] =  newtons(x0, partial(eval_legendre_deriv, n-1), partial(eval_second_legendre_deriv, n-1))
+
+        xs = roots
+        xs[0] = -1
+        xs[-1] = 1
+        for nn in range(1, n-1):
+            inn = nn + 1
+            ws[nn] = 2 / (n*(n-1)) / (sps.eval_legendre(n-1, roots[nn]))**2
+        if n > 1:
+            ws[0] = 2/ (n*(n-1))
+            ws[-1] = 2/ (n*(n-1))
+        # if testing == True:
+        #     testxs = quadpy.c1.gauss_lobatto(n).points
+        #     testws = quadpy.c1.gauss_lobatto(n).weights
+        #     np.testing.assert_allclose(testxs, xs)
+        #     np.testing.assert_allclose(testws, ws)
+
+
+        # if testing == True:
+        #     # testxs = quadpy.c1.gauss_legendre(n).points
+        #     # testws = quadpy.c1.gauss_legendre(n).weights
+        #     np.testing.assert_allclose(testxs, xs)
+        #     np.testing.assert_allclose(testws, ws)
+    return xs, ws    
+
+def bisection(f, a, b, tol=1e-14):
+    assert np.sign(f(a)) != np.sign(f(b))
+    while b-a > tol:
+        m = a + (b-a)/2
+        fm = f(m)
+        if np.sign(f(a)) != np.sign(fm):
+            b = m
+        else:
+            a = m
+            
+    return m
+
+def eval_legendre_deriv(n, x):
+    return (
+        (x*sps.eval_legendre(n, x) - sps.eval_legendre(n-1, x))
+        /
+        ((x**2-1)/n))
+
+def eval_second_legendre_deriv(n, x):
+    return (n*(-((1 + x**2)*sps.eval_legendre(n, x)) + 2*x*sps.eval_legendre(n-1, x) + (-1 + x**2)*(x*eval_legendre_deriv(n, x) - eval_legendre_deriv(n-1, x))))/(-1 + x**2)**2
+
+def newtons2(x0, f, fprime, tol = 1e-14):
+    old_guess = x0
+    new_guess = 1000
+    it = 0
+    while abs(old_guess-new_guess) > tol:
+        new_guess = old_guess - f(old_guess) / fprime(old_guess)
+        old_guess = new_guess
+    return old_guess
+
+def newtons(x0, f, fprime, tol = 1e-14):
+    def iterate(x0, f, fprime):
+        return x0 - f(x0) / fprime(x0)
+    tol_met = False
+    while tol_met == False:
+        new_x0 = iterate(x0, f, fprime)
+        if abs(new_x0-x0) <= tol:
+            tol_met = True
+        x0 = new_x0
+    return x0
+
+@njit
+def sqrt_two_mass_func(i, j):
+    rttwo = math.sqrt(2)
+    if ((i == 0) and (j == 0)) or ((i != 0) and (j != 0)):
+        return 1.0
+    elif (i == 0) and (j != 0):
+        if j%2 == 0:
+            return rttwo
+        else:
+            return 1/rttwo
+    elif (j == 0) and (i!=0):
+        if i%2 == 0:
+            return rttwo
+        else:
+            return 1/rttwo
+    else:
+        assert(0)
+
+@njit
+def rttwo_mistake_undoer(i,j):
+    if ((i == 0) and (j == 0)) or ((i != 0) and (j != 0)):
+        return 1.0
+    elif (i == 0) and (j != 0):
+        if j%2 == 0:
+            return 2.0
+        else:
+            return 1.0
+    elif (j == 0) and (i!=0):
+        if i%2 == 0:
+            return 2.0
+        else:
+            return 1.0
+    else:
+        assert(0)
+        
+
-- 
2.43.0


From bfc4d8a22304422eb627c291e93af141b3c9b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 34/41] fix: two entries of the Siewert slab tables had their
 digits mixed up (0.80278 for 0.80268, 0.62952e-5 for 0.69252e-5)

---
 moving_mesh_transport/solver_functions/run_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index d1a645d..e23cf8b 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -358,10 +358,10 @@ class run:
         self.psibenchpsis = np.array([0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0])
         self.psi0bench = np.array([0.58966, 0.53112, 0.44328, 0.38031, 0.33296, 
                                 0.29609, 0.26656, 0.24239, 0.22223, 0.20517, 0.19055])
-        self.psi1bench = np.array([0.6075e-5, 0.62952e-5, 0.96423e-5, 0.16234e-4, 
+        self.psi1bench = np.array([0.6075e-5, 0.69252e-5, 0.96423e-5, 0.16234e-4, 
         0.43858e-4, 0.16937e-3, 0.57347e-3, 0.15128e-2, 0.32437e-2, 0.59604e-2, 0.97712e-2 ])
 
-        self.psi0benchinf = np.array([0.89780, 0.88784, 0.86958, 0.85230, 0.83550, 0.81900, 0.80278, 
+        self.psi0benchinf = np.array([0.89780, 0.88784, 0.86958, 0.85230, 0.83550, 0.81900, 0.80268, 
                                     0.78649, 0.77043, 0.75450, 0.73872])
 
         self.psi1benchinf = np.array([0.10220, 0.11216, 0.13042, 0.14770, 0.16450, 0.18100, 0.19732, 
-- 
2.43.0


From 6f9b04b9c1a11125eacce9c979245818ecf23783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 35/41] fix: steady gaussian absorber benchmark uses the width
 of the opacity (2; it used 0.5)

---
 moving_mesh_transport/solver_functions/run_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index e23cf8b..c2a3fc0 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -341,7 +341,7 @@ class run:
     
     def steady_state_gaussian_benchmark(self):
         f = lambda x1, x2, sigma: np.sqrt(np.pi/2)*sigma*(erf(x2/math.sqrt(2)/sigma) - erf(x1/math.sqrt(2)/sigma))
-        fsol = lambda x, x0, mu: np.exp((f(-x0, x, 0.5)) / mu) 
+        fsol = lambda x, x0, mu: np.exp((f(-x0, x, 2)) / mu) 
         phi_sol = self.xs * 0 
         for ix in range(self.xs.size):
             for l in range(self.ws.size):
-- 
2.43.0


From c29f8ed3b161fa4ca9d94e3daf7226ff4a394c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 36/41] fix: error of the moving shock benchmark compares the
 final time (it averaged over all saved times)

---
 moving_mesh_transport/solver_functions/run_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index c2a3fc0..3819170 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -547,7 +547,7 @@ class run:
         plt.show()
 
         print("#--- --- --- --- --- --- --- --- ---#")
-        phi_interp = interp.interp1d(self.xs[-1], self.phi)
+        phi_interp = interp.interp1d(self.xs[-1], self.phi[-1])
         phi_eval = phi_interp(sparse_xs)
         print('RMSE', RMSE(phi_eval, phi))
         print()
-- 
2.43.0


From e26b385d72361272046afbb642f4fe952fc79395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:18 +0000
Subject: [PATCH 37/41] fix: wave points of the S2 problems with constant heat
 capacity are saved in their own group (all were stored under 'none')

---
 moving_mesh_transport/loading_and_saving/save_output.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 51e8f34..2374096 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -256,8 +256,12 @@ class save_output:
             folder_name = "transport"
         elif self.problem_type == 'rad_transfer_constant_cv':
             folder_name =  f"transfer_const_cv={self.cv_const}"
+        elif self.problem_type == 'rad_transfer_constant_cv_s2':
+            folder_name =  f"transfer_const_cv={self.cv_const}_s2"
         elif self.problem_type == 'rad_transfer_constant_cv_thick':
             folder_name =  f"transfer_const_cv={self.cv_const}_thick"
+        elif self.problem_type == 'rad_transfer_constant_cv_thick_s2':
+            folder_name =  f"transfer_const_cv={self.cv_const}_thick_s2"
         elif self.problem_type == "su_olson_s2":
             folder_name = "su_olson_s2"
         elif self.problem_type == "su_olson_thick_s2":
-- 
2.43.0


From 1b8e1edb059450ba1c43246b05963d577ebb52b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 38/41] fix: thick square source meshes remember their initial
 edges and fill the source at any half width (they collapsed to a point, or
 lost their order)

---
 moving_mesh_transport/solver_classes/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index fe03f25..ac8389f 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -478,6 +478,7 @@ class mesh_class(object):
         right = np.linspace(self.x0, wave_edge, sidebin + 1)
         middle = np.linspace(-self.x0, self.x0, middlebin + 1)
         self.edges = np.concatenate((left[:-1], middle[:-1], right[:])) # put them all together 
+        self.edges0 = self.edges
         
         # initialize derivatives
         self.Dedges[0:sidebin] = (self.edges[0:sidebin] + self.x0 )/(self.edges[-1] - self.x0)
@@ -679,8 +680,9 @@ class mesh_class(object):
         left = np.linspace(-self.x0-dx, -self.x0, sidebin + 1)
         right = np.linspace(self.x0, self.x0 + dx, sidebin + 1)
         # middle = np.linspace(-self.x0, self.x0, middlebin + 1)
-        middle = 0.5 * self.thick_quad
+        middle = self.x0 * self.thick_quad
         self.edges = np.concatenate((left[:-1], middle[:-1], right[:])) # put them all together 
+        self.edges0 = self.edges
         
         # initialize derivatives
         # self.Dedges[0:sidebin] = (self.edges[0:sidebin] + self.x0 )/(self.edges[-1] - self.x0)
-- 
2.43.0


From 75f46201b347fc90a0621321039961eb03a9b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 39/41] fix: wave points are handed to the mesh in the layout
 it reads (its index was out of bounds)

---
 moving_mesh_transport/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index 2054aaf..a91af90 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -85,7 +85,7 @@ class main_class(parameter_load_class):
                 self.left_wave = sol_loader.left
                 self.right_wave = sol_loader.right
                 self.T_wave = sol_loader.T_wave
-                self.wave_loc_array = np.array([[(self.tpnts_wave)], [(self.left_wave)], [(self.right_wave)], [(self.T_wave)]])
+                self.wave_loc_array = np.array([[self.tpnts_wave, self.left_wave, self.right_wave, self.T_wave]])
                 print(self.wave_loc_array)
 
             elif (self.thick == True and self.source_type[5] == 1):
@@ -95,7 +95,7 @@ class main_class(parameter_load_class):
                 self.left_wave = sol_loader.left
                 self.right_wave = sol_loader.right
                 self.T_wave = sol_loader.T_wave
-                self.wave_loc_array = np.array([[(self.tpnts_wave)], [(self.left_wave)], [(self.right_wave)], [(self.T_wave)]])
+                self.wave_loc_array = np.array([[self.tpnts_wave, self.left_wave, self.right_wave, self.T_wave]])
         else:
             self.wave_loc_array = np.zeros((1,1,1))
 
-- 
2.43.0


From 64954327642ae0d5674d154aaabeae17682a394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:41 +0000
Subject: [PATCH 40/41] fix: errors of an order study are stored under their
 own final time (t=1.25 was written over t=1)

---
 .../loading_and_saving/save_output.py              | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 2374096..73e215a 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -56,16 +56,16 @@ class save_output:
         else:
             saving_condition = False
             
+        if self.tfinal == 1.25:
+            tf = str(1.25)
+        elif self.tfinal == 0.8333333333333334:
+            tf = str(0.8333333333333334)
+        else:
+            tf = str(int(self.tfinal))
         if self.major == 'cells':
             if saving_condition == True:
                 print("saving")
                 f = h5py.File(self.config_file_path, 'r+')
-                if self.tfinal == 1.25:
-                    tf = str(1.25)
-                elif self.tfinal == 0.8333333333333334:
-                    tf = str(0.8333333333333334)
-                else:
-                    tf = str(int(self.tfinal))
                 dest_str = str(self.source_name + "/" + "t="  + tf + "/" + "RMS")
                 print(dest_str)
                 if not f.__contains__(dest_str):
@@ -87,7 +87,7 @@ class save_output:
             if saving_condition == True :
                 print("saving")
                 f = h5py.File(self.config_file_path, 'r+')
-                dest_str = str(self.source_name + "/" + "t="  + str(int(self.tfinal)) + "/" + "RMS")
+                dest_str = str(self.source_name + "/" + "t="  + tf + "/" + "RMS")
                 
                 if not f.__contains__(dest_str):
                     f.create_group(dest_str)
-- 
2.43.0


From f277af3dd2663833acb96f9856fc607495933c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 41/41] fix: uncollided flux behind a moving shock is finite
 for many directions (backward ones overflowed to nan from 512 on)

---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index 08be411..99318aa 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -115,6 +115,8 @@ class uncollided_solution(object):
         return temp
 
     def fake_sedov_integrand(self, mu, t, x):
+        if mu <= 0.0: # nothing enters at the left boundary in these directions
+            return 0.0
         c1 = 1.0
         v0 = self.v0
         x0 = -self.x0
-- 
2.43.0

