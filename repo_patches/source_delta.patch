From dc7c38d9ef49e2fa4fa4e38015004b580737a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:53 +0000
Subject: [PATCH 01/65] fix: end gmin and source stepping with the circuit as
 specified

The aids stopped at 90% of the sources and with an extra gmin of 1e-10 S,
were started from where the previous method diverged, and the last of them
was run once more with its last relaxed step as the problem.
---
 ahkab/dc_analysis.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 60de681..7d5c5dc 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -246,6 +246,8 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
         x = np.zeros((mna_size, 1))
                       # has n-1 rows because of discard of ^^^
 
+    x_start = x
+
     converged = False
     standard_solving, gmin_stepping, source_stepping = get_solve_methods()
     standard_solving, gmin_stepping, source_stepping = set_next_solve_method(
@@ -263,9 +265,9 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
             # print "gmin index:", str(gmin_stepping["index"])+", gmin:", str(
             # 10**(gmin_stepping["factors"][gmin_stepping["index"]]))
             printing.print_info_line(
-                ("Setting Gmin to: " + str(10 ** gmin_stepping["factors"][gmin_stepping["index"]]), 6), verbose)
+                ("Setting extra Gmin to: " + str(gmin_stepping["factors"][gmin_stepping["index"]]), 6), verbose)
             mna_to_pass = build_gmin_matrix(
-                circ, 10 ** (gmin_stepping["factors"][gmin_stepping["index"]]), mna_size, verbose) + mna
+                circ, gmin_stepping["factors"][gmin_stepping["index"]], mna_size, verbose) + mna + Gmin
             N_to_pass = Ndc + Ntran * (Ntran is not None)
         elif source_stepping["enabled"]:
             printing.print_info_line(
@@ -301,6 +303,8 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
             if more_solve_methods_available(standard_solving, gmin_stepping, source_stepping):
                 standard_solving, gmin_stepping, source_stepping = set_next_solve_method(
                     standard_solving, gmin_stepping, source_stepping, verbose)
+                # do not start from where the failed method got lost
+                x = x_start
             else:
                 # print "Giving up."
                 x = None
@@ -309,10 +313,13 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
         else:
             printing.print_info_line(
                 ("[%d iterations]" % (n_iter,), 6), verbose)
-            if (source_stepping["enabled"] and source_stepping["index"] != 9):
+            # the last step of each aid is the circuit as it was specified
+            if source_stepping["enabled"] and \
+               source_stepping["index"] < len(source_stepping["factors"]) - 1:
                 converged = False
                 source_stepping["index"] = source_stepping["index"] + 1
-            elif (gmin_stepping["enabled"] and gmin_stepping["index"] != 9):
+            elif gmin_stepping["enabled"] and \
+                 gmin_stepping["index"] < len(gmin_stepping["factors"]) - 1:
                 gmin_stepping["index"] = gmin_stepping["index"] + 1
                 converged = False
             else:
@@ -422,9 +429,13 @@ def more_solve_methods_available(standard_solving, gmin_stepping, source_steppin
         The answer.
     """
 
-    if (standard_solving["failed"] or not options.use_standard_solve_method) and \
-       (gmin_stepping["failed"] or not options.use_gmin_stepping) and \
-       (source_stepping["failed"] or not options.use_source_stepping):
+    # the method in use (ie the one which is enabled) is not available any more
+    if (standard_solving["failed"] or standard_solving["enabled"] or
+        not options.use_standard_solve_method) and \
+       (gmin_stepping["failed"] or gmin_stepping["enabled"] or
+        not options.use_gmin_stepping) and \
+       (source_stepping["failed"] or source_stepping["enabled"] or
+        not options.use_source_stepping):
         return False
     else:
         return True
@@ -449,12 +460,12 @@ def get_solve_methods():
         The dictionaries contain the options and the status of the methods.
     """
     standard_solving = {"enabled": False, "failed": False}
-    g_indices = list(range(int(numpy.log(options.gmin)), 0))
-    g_indices.reverse()
-    gmin_stepping = {"enabled": False, "failed":
-                     False, "factors": g_indices, "index": 0}
+    # both aids relax the problem step by step and end with the original one
+    gmin_stepping = {"enabled": False, "failed": False, "factors": (
+        1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 0.),
+        "index": 0}
     source_stepping = {"enabled": False, "failed": False, "factors": (
-        0.001, .005, .01, .03, .1, .3, .5, .7, .8, .9), "index": 0}
+        0.001, .005, .01, .03, .1, .3, .5, .7, .8, .9, 1.), "index": 0}
     return standard_solving, gmin_stepping, source_stepping
 
 
-- 
2.43.0


From da291a602bc5ad27f9d3e2ec381d5bf780ec59aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:53 +0000
Subject: [PATCH 02/65] fix: a singular sparse matrix or a non finite step is a
 failed solve

splu reports a singular matrix with RuntimeError, which ended the analysis
instead of trying the next convergence aid; a NaN or infinite step was kept
as the next iterate (and, in linear circuits, returned as the solution).
---
 ahkab/dc_analysis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 7d5c5dc..0a01de9 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -827,10 +827,16 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
         residuo = mna.dot(x) + T + nonlinear_circuit*Tx
 
         if sparse:
-            lu = scipy.sparse.linalg.splu(scipy.sparse.csc_matrix(mna + nonlinear_circuit*J))
+            try:
+                lu = scipy.sparse.linalg.splu(scipy.sparse.csc_matrix(mna + nonlinear_circuit*J))
+            except RuntimeError as e:
+                # this is how splu reports a singular matrix
+                raise np.linalg.LinAlgError(str(e))
             dx = lu.solve(-residuo)
         else:
             dx = np.linalg.solve(mna + nonlinear_circuit*J, -residuo)
+        if not np.isfinite(dx).all():
+            raise np.linalg.LinAlgError("The solution is not finite.")
         x = x + get_td(dx, locked_nodes, n=iteration) * dx
         if not nonlinear_circuit:
             converged = True
-- 
2.43.0


From 6a6980837fa1e2f47759ae09f6ee8ea1cb438dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:19 +0000
Subject: [PATCH 03/65] fix: VCVS whose sense nodes are also output nodes

---
 ahkab/dc_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 0a01de9..d734823 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1058,8 +1058,9 @@ def generate_mna_and_N(circ, verbose=3):
             elif isinstance(elem, components.sources.VSource) and elem.is_timedependent:
                 pass  # taken care step by step
             elif isinstance(elem, components.sources.EVSource):
-                mna[index, elem.sn1] = -1.0 * elem.alpha
-                mna[index, elem.sn2] = +1.0 * elem.alpha
+                # += because the sense nodes may be output nodes too
+                mna[index, elem.sn1] += -1.0 * elem.alpha
+                mna[index, elem.sn2] += +1.0 * elem.alpha
             elif isinstance(elem, components.Inductor):
                 # N[index,0] = 0 pass, it's already zero
                 pass
-- 
2.43.0


From 06028067549881d15405aa08c45a2247ec628728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:57 +0000
Subject: [PATCH 04/65] fix: VCVS with shared nodes in symbolic analysis too

---
 ahkab/symbolic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index a98a403..77ccd94 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -491,8 +491,8 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                         alpha = subs[alpha]
                 else:
                     alpha = elem.alpha
-                mna[index, elem.sn1] = -alpha
-                mna[index, elem.sn2] = +alpha
+                mna[index, elem.sn1] = mna[index, elem.sn1] - alpha
+                mna[index, elem.sn2] = mna[index, elem.sn2] + alpha
             elif isinstance(elem, components.sources.HVSource):
                 if elem.is_symbolic:
                     alpha = _symbol_factory(elem.part_id.upper(), real=True)
-- 
2.43.0


From 212fa596cc3b12eb5619d40d2bb9fd456e6d1184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:57 +0000
Subject: [PATCH 05/65] fix: no damping of the single step that solves a linear
 circuit

---
 ahkab/dc_analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index d734823..8daf085 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -837,11 +837,13 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
             dx = np.linalg.solve(mna + nonlinear_circuit*J, -residuo)
         if not np.isfinite(dx).all():
             raise np.linalg.LinAlgError("The solution is not finite.")
-        x = x + get_td(dx, locked_nodes, n=iteration) * dx
         if not nonlinear_circuit:
+            # one full step gives the solution, there is nothing to damp
+            x = x + dx
             converged = True
             break
-        elif convergence_check(x, dx, residuo, nv - 1)[0]:
+        x = x + get_td(dx, locked_nodes, n=iteration) * dx
+        if convergence_check(x, dx, residuo, nv - 1)[0]:
             converged = True
             break
         # if vector_norm(dx) == np.nan: #Overflow
-- 
2.43.0


From dcd81c9b82d58612c3f14b410e28db57a6c4e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:52 +0000
Subject: [PATCH 06/65] fix: diode with series resistance: AREA, conductance
 and robust junction solve

The current ignored AREA, the conductance was evaluated at the external
instead of the junction voltage, and the inner Newton iteration, started
from the previous evaluation of whatever analysis ran before, failed with
RuntimeError for voltages far away from it.
---
 ahkab/diode.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 1b31f7a..0558ad4 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -36,7 +36,7 @@ from __future__ import (unicode_literals, absolute_import,
 from math import e as E, isinf, sqrt
 import numpy as np
 
-from scipy.optimize import newton
+from scipy.optimize import brentq
 
 from . import constants
 from . import utilities
@@ -357,30 +357,22 @@ class diode_model(object):
             i = self._get_i(vext) * dev.AREA
             dev.last_vd = vext
         else:
-            vd = dev.last_vd if dev.last_vd is not None else 10*self.VT
-            vd = newton(self._obj_irs, vd, fprime=self._obj_irs_prime,
-                        args=(vext, dev), tol=options.vea, maxiter=500)
-            i = self._get_i(vext-vd)
+            vd = self._get_irs_drop(vext, dev)
+            i = self._get_i(vext-vd) * dev.AREA
             dev.last_vd = vd
         return i
 
+    def _get_irs_drop(self, vext, dev):
+        """The voltage drop on RS when ``vext`` is applied to the diode"""
+        # the drop is between 0 and vext, if not for the leakage current
+        tol = 2 * self.RS * dev.AREA * self.IS
+        return brentq(self._obj_irs, min(vext, 0.) - tol, max(vext, 0.) + tol,
+                      args=(vext, dev), xtol=1e-14, maxiter=500)
+
     def _obj_irs(self, x, vext, dev):
-        # obj fn for newton
+        # obj fn for the root finder: monotonic in x
         return x/self.RS-self._get_i(vext-x)*dev.AREA
 
-    def _obj_irs_prime(self, x, vext, dev):
-        # obj fn derivative for newton
-        # first term
-        ret = 1./self.RS
-        # disable RS
-        RSSAVE = self.RS
-        self.RS = 0
-        # second term
-        ret += self.get_gm(self, 0, (vext-x,), 0, dev)
-        # renable RS
-        self.RS = RSSAVE
-        return ret
-
     def _safe_exp(self, x):
         return np.exp(x) if x < 70 else np.exp(70) + 10 * x
 
@@ -398,7 +390,10 @@ class diode_model(object):
     def get_gm(self, op_index, ports_v, port_index, dev):
         if dev.T != self.T:
             self.set_temperature(dev.T)
-        v=ports_v[0]
+        v = ports_v[0]
+        if self.RS:
+            # the voltage across the junction
+            v = v - self._get_irs_drop(v, dev)
         gm = self.IS / (self.N * self.VT) *\
             self._safe_exp(v / (self.N * self.VT)) +\
             -self.IS/self.VT * (self._safe_exp(-(v+self.BV)/self.VT)) +\
@@ -406,7 +401,7 @@ class diode_model(object):
             self._safe_exp(v / (self.NR * self.VT))
         
         if self.RS != 0.0:
-            gm = 1. / (self.RS + 1. / (gm + 1e-3*options.gmin))
+            return 1. / (self.RS + 1. / (dev.AREA * gm + 1e-3*options.gmin))
         return dev.AREA * gm
 
     def __str__(self):
-- 
2.43.0


From a8f867540f77243672d52962ae658d57856628cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:52 +0000
Subject: [PATCH 07/65] fix: sign of the diode conductance in reverse breakdown

---
 ahkab/diode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 0558ad4..76ebd99 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -396,7 +396,8 @@ class diode_model(object):
             v = v - self._get_irs_drop(v, dev)
         gm = self.IS / (self.N * self.VT) *\
             self._safe_exp(v / (self.N * self.VT)) +\
-            -self.IS/self.VT * (self._safe_exp(-(v+self.BV)/self.VT)) +\
+            self.IS / (self.NBV * self.VT) *\
+            self._safe_exp(-(v + self.BV) / (self.NBV * self.VT)) +\
             self.ISR / (self.NR * self.VT) *\
             self._safe_exp(v / (self.NR * self.VT))
         
-- 
2.43.0


From cff90c382bc969a4b12249531c9dd2223990a3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:11 +0000
Subject: [PATCH 08/65] fix: EKV: explicit inversion of the charge-voltage
 relation

The Newton iteration started from the previous evaluation's current: it
failed with RuntimeError for distant voltages, and made the result depend
on what was simulated before.
---
 ahkab/ekv.py | 40 +++++-----------------------------------
 1 file changed, 5 insertions(+), 35 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 2b8cdff..ef622b4 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -77,7 +77,7 @@ from __future__ import (unicode_literals, absolute_import,
 import scipy, scipy.optimize
 import math
 
-from scipy.optimize import newton
+from scipy.special import wrightomega
 
 from . import constants
 from . import options
@@ -709,48 +709,18 @@ class ekv_mos_model:
         ..math::
             q = sqrt(.25 + i) - .5
 
-        The Newton Method is used inside.
+        The solution is explicit, ``iguess`` is accepted for compatibility.
         """
-        # starting guess for Newton's Method.
-        if iguess is None:
-            iguess = 1.0
         # sanity checks
         if math.isnan(vsmall):
             raise ValueError("Attempted to calculate a current corresponding to a NaN voltage.")
         if not ip_abs_err > 0:
             raise ValueError("The normalized current absolute error has been set to a negative value.")
-        ismall = newton(self._vsmall_obj, iguess, fprime=self._vsmall_obj_prime,
-                        fprime2=self._vsmall_obj_prime2, args=(vsmall,),
-                        tol=1.48e-8, maxiter=500)
-        #print(ismall, max(ismall, 0))
+        # ln(q) + 2q = v has the explicit solution 2q = wrightomega(v + ln(2))
+        q = 0.5*float(wrightomega(vsmall + math.log(2.0)))
+        ismall = q*(q + 1.0)
         return max(ismall, 10*utilities.EPS)
 
-    def _vsmall_obj(self, x, vsmall):
-        """Returns :math:`e` according to the equations:
-            q = sqrt(.25 + x) - .5
-            e = ln(q) + 2q - vsmall
-        """
-        if x > 0:
-            return math.log(math.sqrt(.25 + x) - 0.5) + 2.0 * math.sqrt(.25 + x) - 1.0 - vsmall
-        else:
-            return x - vsmall
-
-    def _vsmall_obj_prime(self, x, vsmall):
-        """The Newton algorithm in get_ismall(...) requires the evaluation of the
-        first derivative of the fixed point function:
-            dv/di = 1.0/(sqrt(.25+i)-.5) * .5/sqrt(.25 + i) + 1/sqrt(.25 + i)
-        This is provided by this module.
-        """
-        if x < utilities.EPS:
-            x = 10*utilities.EPS
-        return 0.5/(math.sqrt(.25 + x) - .5)/math.sqrt(.25 + x) + \
-               1.0/math.sqrt(.25 + x)
-
-    def _vsmall_obj_prime2(self, x, vsmall):
-        if x < utilities.EPS:
-            x = 10*utilities.EPS
-        return -1./(4*(x + 0.25)*(math.sqrt(x + 0.25) - 0.5)**2) - 1./(2.*(x + 0.25)**(3./2.)) - 1./(4.*(x + 0.25)**(3./2.)*(math.sqrt(x + 0.25) - 0.5))
-
     def get_vsmall(self, ismall, verbose=3):
         """Returns v according to the equations:
             q = sqrt(.25 + i) - .5
-- 
2.43.0


From 7c9942efd8bc3b6abc09447007acee64644affbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:30 +0000
Subject: [PATCH 09/65] fix: operating point report of MOSQ devices with
 grounded terminals

---
 ahkab/mosq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index ae86b8e..edc20e6 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -251,7 +251,7 @@ class mosq_device(object):
         """
         if self.opdict is None:
             self.opdict = {}
-        if not (self.opdict['state'] == ports_v[0]).all() or 'gmd' not in self.opdict \
+        if not np.array_equal(self.opdict['state'], ports_v[0]) or 'gmd' not in self.opdict \
             or 'gm' not in self.opdict or 'gmb' not in self.opdict \
             or 'Ids' not in self.opdict or 'SAT' not in self.opdict:
 
-- 
2.43.0


From 37c9b72d3300d49c25fa6fdad80fbff8f2789bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 10/65] fix: DC sweep leaves the source value alone when it is
 aborted

An exception or an interrupt in the middle of a sweep left the swept source
with the value of the point being solved.
---
 ahkab/dc_analysis.py | 52 +++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 8daf085..d2a127f 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -550,10 +550,7 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     if not source_elem:
         raise ValueError(".DC: source %s was not found." % source)
 
-    if isinstance(source_elem, components.sources.VSource):
-        initial_value = source_elem.dc_value
-    else:
-        initial_value = source_elem.dc_value
+    initial_value = source_elem.dc_value
 
     # If the initial value is set to None, op_analysis will attempt a smart guess (if guess),
     # Then for each iteration, the last result is used as x0, since op_analysis will not
@@ -571,38 +568,33 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
 
     # tarocca il generatore di tensione, avvia DC silenziosa, ritarocca etc
     index = 0
-    for sweep_value in dc_iter:
-        index = index + 1
-        if isinstance(source_elem, components.sources.VSource):
-            source_elem.dc_value = sweep_value
-        else:
+    try:
+        for sweep_value in dc_iter:
+            index = index + 1
             source_elem.dc_value = sweep_value
-        # silently calculate the op
-        x = op_analysis(circ, x0=x, guess=guess, verbose=0)
-        if x is None:
-            tick.hide(verbose > 2)
-            if not options.dc_sweep_skip_allowed:
-                print("Could't solve the circuit for sweep value:", start + index * step)
-                solved = False
-                break
-            else:
-                print("Skipping sweep value:", start + index * step)
-                continue
-        solved = True
-        sol.add_op(sweep_value, x)
-
-        tick.step()
+            # silently calculate the op
+            x = op_analysis(circ, x0=x, guess=guess, verbose=0)
+            if x is None:
+                tick.hide(verbose > 2)
+                if not options.dc_sweep_skip_allowed:
+                    print("Could't solve the circuit for sweep value:", start + index * step)
+                    solved = False
+                    break
+                else:
+                    print("Skipping sweep value:", start + index * step)
+                    continue
+            solved = True
+            sol.add_op(sweep_value, x)
+
+            tick.step()
+    finally:
+        # clean up, however the sweep ended
+        source_elem.dc_value = initial_value
 
     tick.hide(verbose > 2)
     if solved:
         printing.print_info_line(("done", 3), verbose)
 
-    # clean up
-    if isinstance(source_elem, components.sources.VSource):
-        source_elem.dc_value = initial_value
-    else:
-        source_elem.dc_value = initial_value
-
     return sol if solved else None
 
 
-- 
2.43.0


From f7c759d225ecf446b14943e02f5b1b57d219376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 11/65] fix: DC sweep in which no value could be solved reports
 failure

The documented None was not returned: UnboundLocalError was raised instead.
---
 ahkab/dc_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index d2a127f..2feb704 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -568,6 +568,7 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
 
     # tarocca il generatore di tensione, avvia DC silenziosa, ritarocca etc
     index = 0
+    solved = False
     try:
         for sweep_value in dc_iter:
             index = index + 1
-- 
2.43.0


From 683207f6ae75659ca17585b690548c9de11cf71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 12/65] fix: report skipped DC sweep values on stderr, with the
 right value

With the results on standard output the message was mixed into the table, and it
named the next value of the sweep.
---
 ahkab/dc_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 2feb704..f983ec6 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -578,11 +578,12 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
             if x is None:
                 tick.hide(verbose > 2)
                 if not options.dc_sweep_skip_allowed:
-                    print("Could't solve the circuit for sweep value:", start + index * step)
+                    printing.print_general_error(
+                        "Couldn't solve the circuit for sweep value: %g" % sweep_value)
                     solved = False
                     break
                 else:
-                    print("Skipping sweep value:", start + index * step)
+                    printing.print_warning("Skipping sweep value: %g" % sweep_value)
                     continue
             solved = True
             sol.add_op(sweep_value, x)
-- 
2.43.0


From 136e34dfdb137b6dae125860b6e5fe21b2533ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:34 +0000
Subject: [PATCH 13/65] fix: no bare 'failed.' on standard output at verbosity
 0

Whether the results go to standard output or not, a failed attempt was announced
there regardless of the verbosity requested, in the middle of the table.
---
 ahkab/bfpss.py       | 2 +-
 ahkab/dc_analysis.py | 4 ++--
 ahkab/shooting.py    | 4 ++--
 ahkab/transient.py   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index 5275eae..4a4a84a 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -272,7 +272,7 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
                                    period=period, outfile=outfile)
         sol.set_results(t, x.T)
     else:
-        print("failed.")
+        printing.print_info_line(("failed.", 1), verbose)
         sol = None
     return sol
 
diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index f983ec6..d2eda95 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -281,12 +281,12 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
         except np.linalg.linalg.LinAlgError:
             n_iter = 0
             converged = False
-            print("failed.")
+            printing.print_info_line(("failed.", 1), verbose)
             printing.print_general_error("J Matrix is singular")
         except OverflowError:
             n_iter = 0
             converged = False
-            print("failed.")
+            printing.print_info_line(("failed.", 1), verbose)
             printing.print_general_error("Overflow")
 
         if not converged:
diff --git a/ahkab/shooting.py b/ahkab/shooting.py
index 5cbf928..0a42e76 100644
--- a/ahkab/shooting.py
+++ b/ahkab/shooting.py
@@ -155,7 +155,7 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
                                          return_req_dict={"points": points},
                                          verbose=0)
     if xtran is None:
-        print("failed.")
+        printing.print_info_line(("failed.", 1), verbose)
         return None
     printing.print_info_line(("done.", 3), verbose)
 
@@ -255,7 +255,7 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
         sol.set_results(t, xmat)
         # print_results(circ, x, fdata, points, step)
     else:
-        print("failed.")
+        printing.print_info_line(("failed.", 1), verbose)
         sol = None
     return sol
 
diff --git a/ahkab/transient.py b/ahkab/transient.py
index 14f8ce8..c2795b0 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -422,7 +422,7 @@ def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_m
         else:
             ret_value = sol
     else:
-        print("failed.")
+        printing.print_info_line(("failed.", 1), verbose)
         ret_value =  None
 
     return ret_value
-- 
2.43.0


From a45a97a80f6a05e690eb1e69863ea6aa8155d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:45 +0000
Subject: [PATCH 14/65] fix: Gmin dependence warning goes to stderr

It was printed to standard output, in the middle of the results when those are
directed there.
---
 ahkab/printing.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ahkab/printing.py b/ahkab/printing.py
index e08f460..b41b228 100644
--- a/ahkab/printing.py
+++ b/ahkab/printing.py
@@ -481,10 +481,9 @@ def print_result_check(badvars, verbose=2):
 
     """
     if len(badvars):
-        print("Warning: solution is heavvily dependent on gmin.")
-        print("Affected variables:")
-        for bv in badvars:
-            print(bv)
+        print_warning("solution is heavily dependent on gmin.")
+        print_warning("Affected variables: " +
+                      ", ".join([str(bv) for bv in badvars]))
     else:
         if verbose:
             print("Difference check within margins.")
-- 
2.43.0


From 4d6836522228668262b9af7e3f2f55aee2acf5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:45 +0000
Subject: [PATCH 15/65] fix: printoptions() restores numpy's print settings
 after an exception

---
 ahkab/printing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ahkab/printing.py b/ahkab/printing.py
index b41b228..dfbfe85 100644
--- a/ahkab/printing.py
+++ b/ahkab/printing.py
@@ -527,9 +527,11 @@ def table(data, *args, **argsd):
 def printoptions(*args, **kwargs):
     """A context manager for ``numpy.set_printoptions``"""
     original = np.get_printoptions()
-    np.set_printoptions(*args, **kwargs)
-    yield
-    np.set_printoptions(**original)
+    try:
+        np.set_printoptions(*args, **kwargs)
+        yield
+    finally:
+        np.set_printoptions(**original)
 
 locale = os.getenv('LANG')
 if not locale:
-- 
2.43.0


From 52c8eeafadfe67449f1dd44f6ff01af8063833e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:19 +0000
Subject: [PATCH 16/65] fix: DC sweep stops at the stop value

The number of steps was left as a rounded ratio: sweeps such as 0 to 1 in 50
points got a 51st point beyond the stop value, and a step that does not divide
the interval overshot it.
---
 ahkab/dc_analysis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index d2eda95..a302c9f 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -520,12 +520,17 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     if (stop - start) * step < 0:
         raise ValueError("Unbonded stepping in DC analysis.")
 
-    points = (stop - start) / step + 1
+    # the ratio is rounded: it has to be a whole number of steps
+    intervals = (stop - start) / step
+    points = int(np.floor(intervals * (1 + 1e-9))) + 1
     sweep_type = sweep_type.upper()[:3]
 
     if sweep_type == options.dc_log_step:
         dc_iter = utilities.log_axis_iterator(start, stop, points=points)
     elif sweep_type == options.dc_lin_step:
+        if intervals - (points - 1) > 1e-9 * intervals:
+            # the step does not divide the interval: do not go beyond stop
+            stop = start + (points - 1) * step
         dc_iter = utilities.lin_axis_iterator(start, stop, points=points)
     else:
         printing.print_general_error("Unknown sweep type: %s" % (sweep_type,))
-- 
2.43.0


From 00dfeebf2a3f80fc5aa241ef4e91971225758f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:43 +0000
Subject: [PATCH 17/65] fix: Gear methods work with current SciPy

scipy.misc.factorial was removed, importing gear failed.
---
 ahkab/gear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/gear.py b/ahkab/gear.py
index b9b0962..cf1c58c 100644
--- a/ahkab/gear.py
+++ b/ahkab/gear.py
@@ -85,7 +85,7 @@ from __future__ import (unicode_literals, absolute_import,
 import numpy as np
 import sys
 
-from scipy.misc import factorial
+from scipy.special import factorial
 
 from . import printing
 
-- 
2.43.0


From e5310a77f3e5b40b0644ed43fb19b07f8527e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:43 +0000
Subject: [PATCH 18/65] fix: Euler and Gear transients without step control

max() of an int and None raised TypeError before the first step.
---
 ahkab/transient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index c2795b0..b5a5c58 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -256,7 +256,7 @@ def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_m
         buffer_len += 1
         thebuffer = dfbuffer(length=buffer_len, width=3)
     else:
-        thebuffer = dfbuffer(length=max(max_x, max_dx) + 1, width=3)
+        thebuffer = dfbuffer(length=max(*[i for i in (0, max_x, max_dx) if i is not None]) + 1, width=3)
     thebuffer.add((tstart, x0, None)) #setup the first values
     printing.print_info_line(("done.", 5), verbose) #FIXME
 
-- 
2.43.0


From cabcb4f49b496dfbf9ad988b82776414b2134147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:20 +0000
Subject: [PATCH 19/65] fix: transient without step control does not run beyond
 tstop

The accumulated rounding error of the time could leave it just below tstop after
the last step, and a further full step was taken.
---
 ahkab/transient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index b5a5c58..55e9613 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -320,7 +320,9 @@ def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_m
     printing.print_info_line(("Solving... ", 3), verbose, print_nl=False)
     tick = ticker.ticker(increments_for_step=1)
     tick.display(verbose > 1)
-    while time < tstop:
+    # without step control, rounding errors add up along the way: do not take
+    # one step more because of them
+    while tstop - time > 1e-6*tstep:
         if iter_n < first_iterations_number:
             x_coeff, const, x_lte_coeff, prediction, pred_lte_coeff = \
             implicit_euler.get_df((thebuffer.get_df_vector()[0],), tstep, \
-- 
2.43.0


From 866592eeb874e942e6a2aa90ac5ceee97592bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 20/65] fix: initial conditions of grounded elements, of zero
 value, and in chains

With a terminal grounded the index -1 of the last unknown was read or written, an
IC of 0 was ignored, and an IC could be undone by the next one.
---
 ahkab/dc_analysis.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index a302c9f..006f107 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1187,15 +1187,28 @@ def modify_x0_for_ic(circ, x0):
     voltage_defined_elements = [
         x for x in circ if circuit.is_elem_voltage_defined(x)]
 
-    # setup voltages this may _not_ work properly
-    for elem in circ:
-        if isinstance(elem, components.Capacitor) and elem.ic or \
-                isinstance(elem, diode.diode) and elem.ic:
-            x0[elem.n1 - 1, 0] = x0[elem.n2 - 1, 0] + elem.ic
+    # setup the voltages: start from the ground node and follow the elements
+    # having an IC. Of a set of ICs incompatible with each other, some will not
+    # be satisfied.
+    todo = [elem for elem in circ
+            if isinstance(elem, (components.Capacitor, diode.diode)) and
+            elem.ic is not None and elem.n1 != elem.n2]
+    known = set([0])
+    while len(todo):
+        reached = [e for e in todo if e.n1 in known or e.n2 in known]
+        elem = reached[0] if len(reached) else todo[0]
+        todo.remove(elem)
+        v1 = x0[elem.n1 - 1, 0] if elem.n1 else 0.
+        v2 = x0[elem.n2 - 1, 0] if elem.n2 else 0.
+        if elem.n1 in known and elem.n2 not in known:
+            x0[elem.n2 - 1, 0] = v1 - elem.ic
+        elif elem.n1 not in known:
+            x0[elem.n1 - 1, 0] = v2 + elem.ic
+        known.update([elem.n1, elem.n2])
 
     # setup the currents
     for elem in voltage_defined_elements:
-        if isinstance(elem, components.Inductor) and elem.ic:
+        if isinstance(elem, components.Inductor) and elem.ic is not None:
             x0[nv - 1 + voltage_defined_elements.index(elem), 0] = elem.ic
 
     if return_obj:
-- 
2.43.0


From c8c90c2bb80cdfaf43d47fee031c6da9f0b3fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:33 +0000
Subject: [PATCH 21/65] fix: start vectors of one run do not reach another
 circuit or thread

They were kept in a module global: a later deck could start from the operating
point or .ic of an earlier one, and concurrent runs got each other's.
---
 ahkab/ahkab.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index 14b06f8..b2f32bf 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -192,11 +192,10 @@ from .py3compat import text_type
 
 from .__version__ import __version__
 
-global _queue, _x0s, _print
+global _queue, _print
 
 _queue = []
 _print = False
-_x0s = {None: None}
 
 def new_op(guess=None, x0=None, outfile=None, verbose=0):
     """Assembles an OP analysis and returns the analysis object.
@@ -693,6 +692,15 @@ def run(circ, an_list=None):
 
     .. seealso:: :func:`queue`
     """
+    return _run(circ, an_list, x0s={None: None})
+
+
+def _run(circ, an_list, x0s):
+    """Run analyses on a circuit, see :func:`run`.
+
+    ``x0s`` is a dictionary of the start vectors the analyses may ask for by
+    name. It is updated with the operating points computed on the way.
+    """
     results = {}
 
     if not an_list:
@@ -714,9 +722,9 @@ def run(circ, an_list=None):
         r = analysis[an_type](circ, **an_item)
         results.update({an_type: r})
         if an_type == 'op':
-            _x0s.update({'op': r})
-            _x0s.update({'op+ic': icmodified_x0(circ, r)})
-            _handle_netlist_ics(circ, an_list, ic_list=[])
+            x0s.update({'op': r})
+            x0s.update({'op+ic': icmodified_x0(circ, r)})
+            _handle_netlist_ics(circ, an_list, [], x0s)
     return results
 
 
@@ -937,7 +945,8 @@ def main(filename, outfile="stdout", verbose=3):
         print("")
 
     ic_list = netlist_parser.parse_ics(directives)
-    _handle_netlist_ics(circ, an_list=[], ic_list=ic_list)
+    x0s = {None: None}
+    _handle_netlist_ics(circ, [], ic_list, x0s)
     results = {}
     for an in netlist_parser.parse_analysis(circ, directives):
         if 'outfile' not in list(an.keys()) or not an['outfile']:
@@ -946,11 +955,11 @@ def main(filename, outfile="stdout", verbose=3):
         if 'verbose' in list(an.keys()) and (an['verbose'] is None or an['verbose'] < verbose) \
            or not 'verbose' in list(an.keys()):
             an.update({'verbose': verbose})
-        _handle_netlist_ics(circ, [an], ic_list=[])
+        _handle_netlist_ics(circ, [an], [], x0s)
         if verbose >= 4:
             printing.print_info_line(("Requested an.:", 4), verbose)
             printing.print_analysis(an)
-        results.update(run(circ, [an]))
+        results.update(_run(circ, [an], x0s))
 
     postproc_list = netlist_parser.parse_postproc(circ, postproc_direct)
     if len(postproc_list) > 0 and len(results):
@@ -959,15 +968,15 @@ def main(filename, outfile="stdout", verbose=3):
     return results
 
 
-def _handle_netlist_ics(circ, an_list, ic_list):
+def _handle_netlist_ics(circ, an_list, ic_list, x0s):
     for ic in ic_list:
         ic_label = list(ic.keys())[0]
         icdict = ic[ic_label]
-        _x0s.update({ic_label: new_x0(circ, icdict)})
+        x0s.update({ic_label: new_x0(circ, icdict)})
     for an in an_list:
         if 'x0' in an and isinstance(an['x0'], text_type):
-            if an['x0'] in list(_x0s.keys()):
-                an['x0'] = _x0s[an['x0']]
+            if an['x0'] in list(x0s.keys()):
+                an['x0'] = x0s[an['x0']]
             elif an_list.index(an) == 0:
                 raise ValueError(("The x0 '%s' is not available." % an["x0"]) +\
                                  (an['x0'] == 'op' or an['x0'] == 'op+ic')*
-- 
2.43.0


From 7d288ce123ff45841a69bd776bc6336b9959a9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 22/65] fix: 'x0'='op' refers to the last operating point
 computed, not the first

---
 ahkab/ahkab.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index b2f32bf..7539ce2 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -715,6 +715,8 @@ def _run(circ, an_list, x0s):
     while len(an_list):
         an_item = an_list.pop(0)
         an_type = an_item.pop('type')
+        # get the start vector now: it's the one of the last OP analysis
+        _handle_netlist_ics(circ, [an_item] if len(x0s) > 1 else [], [], x0s)
         if 'x0' in an_item and isinstance(an_item['x0'], text_type):
             printing.print_warning("%s has x0 set to %s, unavailable. Using 'None'." %
                                    (an_type.upper(), an_item['x0']))
@@ -724,7 +726,6 @@ def _run(circ, an_list, x0s):
         if an_type == 'op':
             x0s.update({'op': r})
             x0s.update({'op+ic': icmodified_x0(circ, r)})
-            _handle_netlist_ics(circ, an_list, [], x0s)
     return results
 
 
-- 
2.43.0


From 4a59c862b1050a26b7aa5cd8d44a7c78a0784043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:17 +0000
Subject: [PATCH 23/65] fix: AC results keep the phase unit their file was
 written with

---
 ahkab/results.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 7e7072c..6525c4e 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -578,6 +578,8 @@ class ac_solution(solution, _mutable_data):
         self.linearization_op = op
         self.stype = stype
         self.ostart, self.ostop, self.opoints = start, stop, points
+        # the unit of the phases in the data file
+        self._phase_in_deg = options.ac_phase_in_deg
 
         self.variables += ["f"]
         self.units.update({"f": "Hz"})
@@ -618,7 +620,7 @@ class ac_solution(solution, _mutable_data):
         xsplit = np.zeros((x.shape[0]*2, 1))
         for i in range(x.shape[0]):
             xsplit[2*i, 0] = np.abs(x[i, 0])
-            xsplit[2*i+1, 0] = np.angle(x[i, 0], deg=options.ac_phase_in_deg)
+            xsplit[2*i+1, 0] = np.angle(x[i, 0], deg=self._phase_in_deg)
 
         data = np.concatenate((frequency, xsplit), axis=0)
         self._add_data(data)
@@ -629,6 +631,11 @@ class ac_solution(solution, _mutable_data):
     def get_xlabel(self):
         return self.variables[0]
 
+    def _to_complex(self, magnitude, phase):
+        if self._phase_in_deg:
+            phase = np.deg2rad(phase)
+        return magnitude*np.exp(1j*phase)
+
     def asarray(self):
         """Return all data as a (possibly huge) python matrix."""
         ## data, headers, pos, EOF = csvlib.load_csv()
@@ -653,13 +660,11 @@ class ac_solution(solution, _mutable_data):
                     match_phase = ('arg(%s)' % var).upper()
                     ip = [h.upper() for h in headers].index(match_phase)
                     if cplx_data is None:
-                        cplx_data = np.array(data[i, :]*
-                                             np.exp(1j*data[ip,:]).reshape((1, -1)),
+                        cplx_data = np.array(self._to_complex(data[i, :], data[ip, :]).reshape((1, -1)),
                                              dtype=np.complex_)
                     else:
                         cplx_data = np.vstack((cplx_data,
-                                               (data[i, :]*
-                                                np.exp(1j*data[ip, :])).reshape((1, -1))))
+                                               self._to_complex(data[i, :], data[ip, :]).reshape((1, -1))))
         return cplx_data
 
     # Access as a dictionary BY VARIABLE NAME:
@@ -679,7 +684,7 @@ class ac_solution(solution, _mutable_data):
             # raise the correct exception
             raise KeyError(name)
         if len(headers) == 2:
-            data = data[0, :] * np.exp(1j*data[1, :])
+            data = self._to_complex(data[0, :], data[1, :])
         else:
             data = data.reshape((-1,))
         return data
-- 
2.43.0


From 0cc8b84dbad562d4b0e6b39746909092e7a01095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:05 +0000
Subject: [PATCH 24/65] fix: number of points of a period is not lost to
 rounding

---
 ahkab/utilities.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ahkab/utilities.py b/ahkab/utilities.py
index ee30470..54cfd8f 100644
--- a/ahkab/utilities.py
+++ b/ahkab/utilities.py
@@ -583,12 +583,13 @@ def check_step_and_points(step=None, points=None, period=None,
         step = float(period)/(points - 1)
     else:
         points = float(period)/step
-        if points % 1 != 0:
-            step = step + (step * (points % 1)) / int(points)
-            points = int(float(period)/step)
+        if abs(points - round(points)) > 1e-6*points:
+            points = int(points)
+            step = float(period)/points
             printing.print_warning("adapted step is %g" % (step,))
         else:
-            points = int(points)
+            points = int(round(points))
+            step = float(period)/points
         # 0 - N where xN is in reality the first point of the second period!!
         points = points + 1
 
-- 
2.43.0


From 0480079db683ee1314e7319d27b4efa38b692f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:05 +0000
Subject: [PATCH 25/65] fix: shooting does not report NaN as a converged
 solution

---
 ahkab/shooting.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ahkab/shooting.py b/ahkab/shooting.py
index 0a42e76..48cd4fc 100644
--- a/ahkab/shooting.py
+++ b/ahkab/shooting.py
@@ -217,6 +217,8 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
             x[index] = td*dx[index] + x[index]
         dx.append(dxN)
 
+        if not np.all(np.isfinite(dx)):
+            raise OverflowError
         if (_vector_norm_wrapper(dx, vector_norm) < min(options.ver, options.ier) *
                 _vector_norm_wrapper(x, vector_norm) + min(options.vea, options.iea)):
             # and (dc_analysis.vector_norm(residuo) <
@@ -226,9 +228,6 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
                 break
             else:
                 conv_counter = conv_counter + 1
-        elif vector_norm(dx[points - 1]) is np.nan:  # needs work fixme
-            raise OverflowError
-            # break
         else:
             conv_counter = 0
             tick.step()
-- 
2.43.0


From 06b38a8d883482a22e8ec8d55dfb48717f5d49bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:05 +0000
Subject: [PATCH 26/65] fix: brute-force PSS works with current NumPy and with
 dense matrices

---
 ahkab/bfpss.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index 4a4a84a..07fa548 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -156,12 +156,9 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
     nv_indices = []
     ni_indices = []
     nv_1 = circ.get_nodes_number() - 1
-    ni = n_of_var - nv_1
     for i in range(points):
-        nv_indices += (i * mna.shape[0] * np.ones(nv_1) + \
-                      np.arange(nv_1)).tolist()
-        ni_indices += (i * mna.shape[0] * np.ones(ni) + \
-                      np.arange(nv_1, n_of_var)).tolist()
+        nv_indices += (i * mna.shape[0] + np.arange(nv_1)).tolist()
+        ni_indices += (i * mna.shape[0] + np.arange(nv_1, n_of_var)).tolist()
 
     converged = False
 
@@ -233,7 +230,7 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
                                             elem.g(opindex, v_ports, dpindex)
 
         J = J + CMAT
-        residuo = CMAT*x + T + Tf + Tt
+        residuo = CMAT.dot(x) + T + Tf + Tt
         if sparse:
             J = scipy.sparse.csc_matrix(J)
             lu = scipy.sparse.linalg.splu(J)
@@ -280,7 +277,7 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
 def _convergence_check(dx, x, nv_indices, ni_indices, vector_norm):
     """Perform a convergence check using the specified vector norm"""
     # sometimes something diverges... look out
-    if vector_norm(dx) is np.nan:
+    if not np.all(np.isfinite(dx)):
         raise OverflowError
     dxc = np.array(dx)
     xc = np.array(x)
-- 
2.43.0


From c812712f805e58847a5b1516979d9fe8ffd1090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:19 +0000
Subject: [PATCH 27/65] fix: errors while writing a result file are reported,
 and the file is closed

---
 ahkab/csvlib.py  | 18 +++++++-----------
 ahkab/results.py | 13 +++++++------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index 205d259..8f764cc 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -87,17 +87,16 @@ def write_csv(filename, data, headers, append=False):
 
     """
 
-    mode = 'ab' if append else 'wb'
-    fp = _get_fp(filename, mode)
-
     if not data.shape[0] == len(headers):
         print("(W): write_csv(): data and headers don't match. Continuing anyway.")
         print("DATA: " + str(data.shape) + " headers length: " + str(len(headers)))
 
     headers = SEPARATOR.join(headers) if not append else ""
-    np.savetxt(fp, data.T, delimiter=SEPARATOR, header=headers, comments='#')
-
-    _close_fp(fp, filename)
+    fp = _get_fp(filename, 'ab' if append else 'wb')
+    try:
+        np.savetxt(fp, data.T, delimiter=SEPARATOR, header=headers, comments='#')
+    finally:
+        _close_fp(fp, filename)
 
 
 def write_headers(filename, headers):
@@ -138,12 +137,9 @@ def _get_fp(filename, mode="r"):
 
 
 def _close_fp(fp, filename):
-    try:
-        fp.flush()
-    except IOError:
-        pass
+    # flush() and close() are where most write errors show up: let them through
     if filename == 'stdout':
-        pass
+        fp.flush()
     else:
         fp.close()
 
diff --git a/ahkab/results.py b/ahkab/results.py
index 6525c4e..72845f7 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -445,9 +445,14 @@ class op_solution(solution, _mutable_data):
         if filename is None:
             filename = self.filename
         if filename != 'stdout':
-            fp = printing.open_utf8(filename+"info")
+            with printing.open_utf8(filename+"info") as fp:
+                self._write_info(fp)
+            # save to .op file
+            self._add_data(self.x)
         else:
-            fp = sys.stdout
+            self._write_info(sys.stdout)
+
+    def _write_info(self, fp):
         fp.write(self.timestamp+"\n")
         fp.write("ahkab v. "+__version__+" (c) 2006-2015 Giuseppe Venturini\n\n")
         fp.write("Operating Point (OP) analysis\n\n")
@@ -469,10 +474,6 @@ class op_solution(solution, _mutable_data):
             fp.write(t + '\n\n')
         fp.write('Total power dissipation: %g W\n\n' % self.tot_power)
         fp.flush()
-        if filename != 'stdout':
-            fp.close()
-            # save to .op file
-            self._add_data(self.x)
 
     def print_short(self):
         """Print a short, essential representation of the OP results"""
-- 
2.43.0


From 50ffde810e48fc3fe2e597948971b2302b62132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 28/65] fix: pole-zero results without zeros can be read like
 any other

---
 ahkab/results.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 72845f7..f96ae6f 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -1189,21 +1189,22 @@ class pz_solution(solution, _mutable_data):
         if np.prod(self.zeros.shape):
             for i in range(self.zeros.shape[0]):
                 self.variables += ['z%d' % i]
-            for v in self.variables:
-                self.units.update({v: "rad/s"})
-            self.csv_headers = []
-            for i in range(len(self.variables)):
-                self.csv_headers.append("Re(%s)" % self.variables[i])
-                self.csv_headers.append("Im(%s)" % self.variables[i])
-
-            # save in Re/Im form
-            sdata = data.reshape(-1).view(np.float_).reshape((-1, 1))
+        for v in self.variables:
+            self.units.update({v: "rad/s"})
+        self.csv_headers = []
+        for i in range(len(self.variables)):
+            self.csv_headers.append("Re(%s)" % self.variables[i])
+            self.csv_headers.append("Im(%s)" % self.variables[i])
+
+        # save in Re/Im form
+        sdata = data.reshape(-1).view(np.float_).reshape((-1, 1))
+        if self.filename is not None:
             self._add_data(sdata)
 
-            # store local data too:
-            self.data = case_insensitive_dict()
-            for i in range(len(self.variables)):
-                self.data.update({self.variables[i]: data[i, 0]})
+        # store local data too:
+        self.data = case_insensitive_dict()
+        for i in range(len(self.variables)):
+            self.data.update({self.variables[i]: data[i, 0]})
 
     def _add_data(self, data):
         """Remember to call this method with REAL data - already split in RE and IM."""
-- 
2.43.0


From f578800985bb0ae692a87200a52bcee7d38771d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:39 +0000
Subject: [PATCH 29/65] fix: values() of an operating point with one variable
 is a list

---
 ahkab/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index f96ae6f..89604d2 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -525,7 +525,7 @@ class op_solution(solution, _mutable_data):
 
     def values(self):
         """Get all of the results set's variables values."""
-        return np.squeeze(self.x).tolist()
+        return self.x.reshape(-1).tolist()
 
     def items(self):
         vlist = []
-- 
2.43.0


From b808126948868b4cde750c1cf353c64d5652700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:17 +0000
Subject: [PATCH 30/65] fix: several iterations of one result object do not
 disturb each other

---
 ahkab/results.py | 86 ++++--------------------------------------------
 1 file changed, 7 insertions(+), 79 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 89604d2..ceb7c84 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -154,7 +154,6 @@ class solution(object):
         self.skip_nodes_list = []   # nodi da saltare, solo interni
         self.variables = []
         self.units = case_insensitive_dict()
-        self.iter_index = 0
         # Please redefine this sol_type in the subclasses
         self.sol_type = None
 
@@ -219,28 +218,10 @@ class solution(object):
     def items(self):
         return list(zip(self.keys(), self.values()))
 
-    # iterator methods
     def __iter__(self):
-        self.iter_index = 0
-        self.iter_data, self.iter_headers, _, _ = csvlib.load_csv(self.filename)
-        return self
-
-    def next(self):
-        return self.__next__()
-
-    def __next__(self):
-        if self.iter_index == len(self.iter_headers):
-            self.iter_index = 0
-            raise StopIteration
-        else:
-            next_i = self.iter_headers[self.iter_index]
-            if hasattr(self.iter_data, 'shape'):
-                next_d = self.iter_data[self.iter_index, :]
-            else:
-                next_d = self.iter_data[self.iter_index]
-            nxt = next_i, next_d
-            self.iter_index += 1
-        return nxt
+        # a new iterator each time, so that several may be in use at once
+        data, headers, _, _ = csvlib.load_csv(self.filename)
+        return iter([(h, data[i, :]) for i, h in enumerate(headers)])
 
 class op_solution(solution, _mutable_data):
     """OP results
@@ -533,23 +514,8 @@ class op_solution(solution, _mutable_data):
             vlist.append(self.x[j, 0])
         return list(zip(self.variables, vlist))
 
-    # iterator methods
     def __iter__(self):
-        self._iter_index = 0
-        return self
-
-    def next(self):
-        if self._iter_index == len(self.variables):
-            self._iter_index = 0
-            raise StopIteration
-        else:
-            nxt = self.variables[self._iter_index], \
-                   self.x[self._iter_index]
-            self._iter_index += 1
-        return nxt
-
-    def __next__(self):
-        return self.next()
+        return iter([(v, self.x[i]) for i, v in enumerate(self.variables)])
 
 
 class ac_solution(solution, _mutable_data):
@@ -710,12 +676,8 @@ class ac_solution(solution, _mutable_data):
         values = self.values()
         return zip(self.variables, values)
 
-    # iterator methods
     def __iter__(self):
-        self.iter_index = 0
-        self.iter_data = self.values()
-        self.iter_headers = self.variables
-        return self
+        return iter(list(self.items()))
 
 class dc_solution(solution, _mutable_data):
     """DC results
@@ -1144,23 +1106,8 @@ class symbolic_solution(object):
         """Get all solutions."""
         return list(self.results.items())
 
-    # iterator methods
     def __iter__(self):
-        self.iter_index = -1
-        return self
-
-    def __next__(self):
-        """Iterator method."""
-        if self.iter_index == len(list(self.results.keys())) - 1:
-            self.iter_index = 0
-            raise StopIteration
-        else:
-            self.iter_index += 1
-        return list(self.results.keys())[self.iter_index], \
-               self.results[self._symbols[self.iter_index]]
-
-    def next(self):
-        return self.__next__()
+        return iter(self.items())
 
 class pz_solution(solution, _mutable_data):
     """PZ results
@@ -1249,27 +1196,8 @@ class pz_solution(solution, _mutable_data):
     def items(self):
         return self.data.items()
 
-    # iterator methods
     def __iter__(self):
-        # take into account that we increment first, then return
-        # the value
-        self.iter_index = -1
-        return self
-
-    def __next__(self):
-        # redefine this or the superclass method will be used on
-        # PY3, calling the superclass' next() and not *our* next
-        # method below.
-        return self.next()
-
-    def next(self):
-        if self.iter_index == len(self.variables)-1:
-            self.iter_index = 0
-            raise StopIteration
-        else:
-            self.iter_index += 1
-        return self.variables[self.iter_index], \
-               self.data[self.variables[self.iter_index]]
+        return iter([(v, self.data[v]) for v in self.variables])
 
 class case_insensitive_dict(object):
     """A dictionary that uses case-insensitive strings as keys.
-- 
2.43.0


From 6b562e470dd4fc5f88f9739df3170ffb77cbcb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 31/65] fix: pole-zero analysis used numpy's global random
 state

The frequency kick of the shifted pole-zero extraction was drawn from the
unseeded global generator, so the same request gave different numbers from
one process to the next and disturbed the caller's random sequence.
---
 ahkab/pz.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 0c64865..1d8c889 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -37,8 +37,9 @@ and:
     *Proceedings of the 34th Midwest Symposium on*, pp.380,
     383 vol.1, 14-17 May 1991
 
-Frequency sweeping -- or shifting -- is performed with a random frequency
+Frequency sweeping -- or shifting -- is performed with an arbitrary frequency
 kick, currently, hoping not to kick so hard that we end up on the negative side.
+The kick is the same every time, so that the results are reproducible.
 A bisection method would be better and hopefully will be implemented soon.
 
 Overview
@@ -72,6 +73,9 @@ from . import py3compat
 from . import options
 from . import results
 
+# relative size of the frequency kick, see above
+SHIFT_KICK = 0.5
+
 specs = {'pz': {'tokens': ({
                            'label': 'output',
                            'pos': 0,
@@ -277,7 +281,7 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
         else:
             return calculate_singularities(mc, input_source, output_port, MNA=MNA,
                                            outfile=outfile, 
-                                           shift=shift+np.abs(1+np.random.uniform())*1e3)
+                                           shift=shift+np.abs(1+SHIFT_KICK)*1e3)
     else:
         poles = []
     if calc_zeros and TCM is not None:
@@ -326,11 +330,11 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
             except ValueError:
                 return calculate_singularities(mc, input_source, output_port, 
                                            MNA=MNA, outfile=outfile,
-                                           shift=shift+np.abs(np.random.uniform()+1)*1e3)
+                                           shift=shift+np.abs(SHIFT_KICK+1)*1e3)
         elif shift < 1e12:
             return calculate_singularities(mc, input_source, output_port, 
                                        MNA=MNA, outfile=outfile,
-                                       shift=shift*np.abs(np.random.uniform()+1)*10)
+                                       shift=shift*np.abs(SHIFT_KICK+1)*10)
         else:
             zeros = []
     else:
-- 
2.43.0


From 374acbd9269d72c6c7af66010b9b122047e0a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 32/65] fix: diode values computed at another temperature were
 reused

The memoized model functions take the device as part of the key, but the
device object hashes by identity: changing its temperature in place left the
values of the old temperature in the cache. Replace the device instead.
---
 ahkab/diode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 76ebd99..6d5b9b2 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -33,6 +33,7 @@ This module contains a diode element and its model class.
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
+import copy
 from math import e as E, isinf, sqrt
 import numpy as np
 
@@ -112,6 +113,7 @@ class diode(object):
         # this automatically makes the memoization cache obsolete. self.device
         # is in fact passed as one of the arguments, hashed and stored:
         # if it changes, the old cache will return misses.
+        self.device = copy.copy(self.device)
         self.device.T = T
 
     def __str__(self):
-- 
2.43.0


From ab417046625ba51e646b5884006e062e2c08a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 33/65] fix: diode series resistance drifted with every
 temperature change

The scaling of RS was applied relative to the previous temperature, so
that going back to a temperature did not give the same resistance: two
diodes of one model at different temperatures made it decay to zero.
---
 ahkab/diode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 6d5b9b2..603186a 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -418,6 +418,7 @@ class diode_model(object):
                          (self.N*constants.k*T)*
                          (1 - T/self.T))
         self.BV = self.BV - self.TBV*(T - self.T)
-        self.RS = self.RS*(1 + self.TRS*(T - self.T))
+        self.RS = self.RS*(1 + self.TRS*(T - T_DEFAULT))/ \
+                  (1 + self.TRS*(self.T - T_DEFAULT))
         self.T = T
 
-- 
2.43.0


From fd17e44174f3946a13b34953154221411156b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 34/65] fix: running an unnamed analysis again overwrote its
 earlier results

The temporary output file belongs to the analysis description, so a second
run of the same description replaced the data the results of the first run
are loaded from. Every run now gets a temporary file of its own.
---
 ahkab/ahkab.py | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index 7539ce2..97cee8f 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -197,6 +197,33 @@ global _queue, _print
 _queue = []
 _print = False
 
+# temporary output files: file name -> whether an analysis wrote to it already
+_temp_outfiles = {}
+
+
+def _register_temp_outfile(outfile):
+    """Have the temporary file ``outfile`` removed upon exit"""
+    _temp_outfiles[outfile] = False
+    atexit.register(os.remove, outfile)
+
+
+def _get_outfile(outfile):
+    """The file to write to, for an analysis specified with ``outfile``
+
+    If no output file was requested, the results of every run get a temporary
+    file of their own: they are loaded from there when they are accessed.
+    """
+    if outfile in _temp_outfiles:
+        if _temp_outfiles[outfile]:
+            tmpfile = tempfile.NamedTemporaryFile(
+                suffix=os.path.splitext(outfile)[1], delete=False)
+            outfile = tmpfile.name
+            tmpfile.close()
+            _register_temp_outfile(outfile)
+        _temp_outfiles[outfile] = True
+    return outfile
+
+
 def new_op(guess=None, x0=None, outfile=None, verbose=0):
     """Assembles an OP analysis and returns the analysis object.
 
@@ -242,7 +269,7 @@ def new_op(guess=None, x0=None, outfile=None, verbose=0):
             tmpfile = tempfile.NamedTemporaryFile(suffix='.op', delete=False)
             outfile = tmpfile.name
             tmpfile.close()
-            atexit.register(os.remove, outfile)
+            _register_temp_outfile(outfile)
     else:
         outfile += '.op'
     return {'type': 'op', 'guess': guess, 'x0': x0, 'outfile': outfile, 'verbose': verbose}
@@ -309,7 +336,7 @@ def new_dc(start, stop, points, source, sweep_type='LINEAR', guess=True, x0=None
             tmpfile = tempfile.NamedTemporaryFile(suffix='.dc', delete=False)
             outfile = tmpfile.name
             tmpfile.close()
-            atexit.register(os.remove, outfile)
+            _register_temp_outfile(outfile)
     else:
         outfile += '.dc'
     return {
@@ -375,7 +402,7 @@ def new_tran(tstart, tstop, tstep, x0='op', method=transient.TRAP,
             tmpfile = tempfile.NamedTemporaryFile(suffix='.tran', delete=False)
             outfile = tmpfile.name
             tmpfile.close()
-            atexit.register(os.remove, outfile)
+            _register_temp_outfile(outfile)
     else:
         outfile += '.tran'
     return {"type": "tran", "tstart": tstart, "tstop": tstop, "tstep": tstep,
@@ -438,7 +465,7 @@ def new_ac(start, stop, points, x0='op', sweep_type='LOG', outfile=None, verbose
             tmpfile = tempfile.NamedTemporaryFile(suffix='.ac', delete=False)
             outfile = tmpfile.name
             tmpfile.close()
-            atexit.register(os.remove, outfile)
+            _register_temp_outfile(outfile)
     else:
         outfile += '.ac'
     return {
@@ -505,7 +532,7 @@ def new_pss(period, x0=None, points=None, method=options.BFPSS, autonomous=False
             tmpfile = tempfile.NamedTemporaryFile(suffix='.'+method.lower(), delete=False)
             outfile = tmpfile.name
             tmpfile.close()
-            atexit.register(os.remove, outfile)
+            _register_temp_outfile(outfile)
     else:
         outfile += '.' + method.lower()
     return {
@@ -565,7 +592,7 @@ def new_pz(input_source=None, output_port=None, shift=0.0, MNA=None, outfile=Non
             tmpfile = tempfile.NamedTemporaryFile(suffix='.pz', delete=False)
             outfile = tmpfile.name
             tmpfile.close()
-            atexit.register(os.remove, outfile)
+            _register_temp_outfile(outfile)
     else:
         outfile += '.pz'
     return {'type': "pz", 'input_source':input_source, 'x0':x0,
@@ -648,7 +675,7 @@ def new_symbolic(source=None, ac_enable=True, r0s=False, subs=None, outfile=None
             tmpfile = tempfile.NamedTemporaryFile(suffix='.symbolic', delete=False)
             outfile = tmpfile.name
             tmpfile.close()
-            atexit.register(os.remove, outfile)
+            _register_temp_outfile(outfile)
     else:
         outfile += '.symbolic'
     return {
@@ -721,6 +748,8 @@ def _run(circ, an_list, x0s):
             printing.print_warning("%s has x0 set to %s, unavailable. Using 'None'." %
                                    (an_type.upper(), an_item['x0']))
             an_item['x0'] = None
+        if 'outfile' in an_item:
+            an_item['outfile'] = _get_outfile(an_item['outfile'])
         r = analysis[an_type](circ, **an_item)
         results.update({an_type: r})
         if an_type == 'op':
-- 
2.43.0


From f038d2babeedf92be90eb32fcf08716acfdacf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 35/65] fix: analyses left in the queue lost the operating
 point computed for them

If an analysis raised, the ones queued after it still run at the next request
but those asking for the operating point computed before the failure did not
get it.
---
 ahkab/ahkab.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index 97cee8f..9c84396 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -195,6 +195,8 @@ from .__version__ import __version__
 global _queue, _print
 
 _queue = []
+# circuit and start vectors of a run that left analyses in the queue
+_queue_left = None
 _print = False
 
 # temporary output files: file name -> whether an analysis wrote to it already
@@ -719,7 +721,19 @@ def run(circ, an_list=None):
 
     .. seealso:: :func:`queue`
     """
-    return _run(circ, an_list, x0s={None: None})
+    global _queue_left
+    if an_list:
+        return _run(circ, an_list, x0s={None: None})
+    # go on with what an exception left in the queue
+    x0s = {None: None}
+    if _queue_left is not None and _queue_left[0] is circ:
+        x0s = _queue_left[1]
+    _queue_left = None
+    try:
+        return _run(circ, None, x0s)
+    finally:
+        if _queue:
+            _queue_left = (circ, x0s)
 
 
 def _run(circ, an_list, x0s):
-- 
2.43.0


From a7650e92a329729b81a7fbfe6155f50af5557380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 36/65] fix: an interrupt while a custom method is looked up
 was swallowed

---
 ahkab/transient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index 55e9613..12ae02e 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -662,7 +662,7 @@ def import_custom_df_module(method, print_out):
         df = imp.load_module(imp.find_module(method.lower()))
         if print_out:
             print("Custom df module "+method.lower()+" loaded.")
-    except:
+    except Exception:
         printing.print_general_error("Unrecognized method: "+method.lower()+".")
         df = None
 
-- 
2.43.0


From 1b52749df9c0297ea1802d0a2893ec74febfdc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 37/65] fix: an interrupted temperature update left a diode
 model half updated

The next evaluation rescaled the saturation current once more.
---
 ahkab/diode.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 603186a..d3ab44a 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -412,13 +412,14 @@ class diode_model(object):
 
     def set_temperature(self, T):
         T = float(T)
-        self.EG = self.material.Eg(T) if self.material!=None else self.EG
-        self.IS = self.IS*(T/self.T)**(self.XTI/self.N)* \
-                  np.exp(-constants.e*(self.material.Eg(constants.Tref) if self.material!=None else self.EG)/\
-                         (self.N*constants.k*T)*
-                         (1 - T/self.T))
-        self.BV = self.BV - self.TBV*(T - self.T)
-        self.RS = self.RS*(1 + self.TRS*(T - T_DEFAULT))/ \
-                  (1 + self.TRS*(self.T - T_DEFAULT))
-        self.T = T
+        EG = self.material.Eg(T) if self.material!=None else self.EG
+        IS = self.IS*(T/self.T)**(self.XTI/self.N)* \
+             np.exp(-constants.e*(self.material.Eg(constants.Tref) if self.material!=None else self.EG)/\
+                    (self.N*constants.k*T)*
+                    (1 - T/self.T))
+        BV = self.BV - self.TBV*(T - self.T)
+        RS = self.RS*(1 + self.TRS*(T - T_DEFAULT))/ \
+             (1 + self.TRS*(self.T - T_DEFAULT))
+        # all or nothing: the next update starts from what is stored here
+        self.EG, self.IS, self.BV, self.RS, self.T = EG, IS, BV, RS, T
 
-- 
2.43.0


From 6043680c693e269e787dbe9f331d001d70544afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 38/65] fix: an interrupted operating point report left
 incomplete entries in use

The state they belong to was stored first, so that the next report for the
same voltages took them for complete.
---
 ahkab/mosq.py   | 3 ++-
 ahkab/switch.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index edc20e6..bc16ac8 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -256,7 +256,6 @@ class mosq_device(object):
             or 'Ids' not in self.opdict or 'SAT' not in self.opdict:
 
             vds, vgs, _ = ports_v[0]
-            self.opdict['state'] = ports_v[0]
             gstamp = self.gstamp(ports_v[0], reduced=False)[1]
             self.opdict['gmd'] = gstamp[0, 0]
             self.opdict['gm'] = gstamp[0, 1]
@@ -268,6 +267,8 @@ class mosq_device(object):
             self.opdict.update({'beta':.5*self.mosq_model.KP*self.device.W/self.device.L})
             self.opdict.update({'VOD':self.mosq_model.NPMOS*(vgs - self.opdict['VTH']),
                                 'SAT':vds > vgs - self.opdict['VTH']})
+            # last: the entries above are complete
+            self.opdict['state'] = ports_v[0]
         else:
             pass
             #already up to date
diff --git a/ahkab/switch.py b/ahkab/switch.py
index c95cc91..71642eb 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -192,10 +192,11 @@ class switch_device:
         if self.opdict is None:
             self.opdict = {}
         if not (self.opdict['state'] == ports_v[0] and 'R' in self.opdict):
-            self.opdict['state'] = ports_v[0]
             self.opdict['R'] = float(1.0 / self.g(0, ports_v[0], 0))
             self.opdict['I'] = float(self.i(0, ports_v[0]))
             self.opdict['STATUS'] = self.device.is_on
+            # last: the entries above are complete
+            self.opdict['state'] = ports_v[0]
 
     def get_op_info(self, ports_v):
         """Information regarding the Operating Point (OP)
-- 
2.43.0


From 7b7bb923c150276dcaa2df74bf57af5c302b2387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 39/65] fix: memoized model values ignored changes of gmin and
 iea

---
 ahkab/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ahkab/utilities.py b/ahkab/utilities.py
index 54cfd8f..f17347b 100644
--- a/ahkab/utilities.py
+++ b/ahkab/utilities.py
@@ -721,9 +721,10 @@ def memoize(f):
         __slots__ = ()
         @wraps(f)
         def __getitem__(self, *key):
-            return dict.__getitem__(self, key)
+            # the device models depend on these options too
+            return dict.__getitem__(self, (key, options.gmin, options.iea))
         def __missing__(self, key):
-            ret = self[key] = f(*key)
+            ret = self[key] = f(*key[0])
             # set options.cache_len to None to disable any size limit.
             if options.cache_len is not None and len(self) > options.cache_len:
                 self.popitem() #FIFO pop
-- 
2.43.0


From d0103b04e539515a5340735c6279560c22db83b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:53 +0000
Subject: [PATCH 40/65] fix: the Gear order was shared by all the simulations
 of the process

---
 ahkab/gear.py      | 28 ++++++++++++++++++++++++++++
 ahkab/transient.py | 24 ++++++++++++------------
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/ahkab/gear.py b/ahkab/gear.py
index cf1c58c..7f132c0 100644
--- a/ahkab/gear.py
+++ b/ahkab/gear.py
@@ -119,7 +119,35 @@ def get_required_values():
     return ((order, None), (order, None))
 
 
+class Gear(object):
+    """Gear's method of the given order, with the interface of a df module.
+
+    Every transient analysis uses an object of its own: the order is not
+    shared with the other simulations running in the process.
+    """
+
+    def __init__(self, order):
+        self.order = order
+
+    def is_implicit(self):
+        return is_implicit()
+
+    def has_ff(self):
+        return has_ff()
+
+    def get_required_values(self):
+        return ((self.order, None), (self.order, None))
+
+    def get_df(self, pv_array, suggested_step, predict=False):
+        return _get_df(self.order, pv_array, suggested_step, predict)
+
+
 def get_df(pv_array, suggested_step, predict=False):
+    """Gear's method, of the order set in the module. See _get_df()"""
+    return _get_df(order, pv_array, suggested_step, predict)
+
+
+def _get_df(order, pv_array, suggested_step, predict=False):
     """The array must be built in this way:
     It has to be an array of arrays. Each of them has the following structure:
 
diff --git a/ahkab/transient.py b/ahkab/transient.py
index 12ae02e..31546c5 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -209,23 +209,23 @@ def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_m
     elif method == TRAP:
         from . import trap as df
     elif method == GEAR1:
-        from . import gear as df
-        df.order = 1
+        from . import gear
+        df = gear.Gear(1)
     elif method == GEAR2:
-        from . import gear as df
-        df.order = 2
+        from . import gear
+        df = gear.Gear(2)
     elif method == GEAR3:
-        from . import gear as df
-        df.order = 3
+        from . import gear
+        df = gear.Gear(3)
     elif method == GEAR4:
-        from . import gear as df
-        df.order = 4
+        from . import gear
+        df = gear.Gear(4)
     elif method == GEAR5:
-        from . import gear as df
-        df.order = 5
+        from . import gear
+        df = gear.Gear(5)
     elif method == GEAR6:
-        from . import gear as df
-        df.order = 6
+        from . import gear
+        df = gear.Gear(6)
     else:
         df = import_custom_df_module(method, print_out=(outfile != "stdout"))
         # df is none if module is not found
-- 
2.43.0


From 2fa95fce316e9e0425c5e30fb285e61e184c4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 41/65] fix: continuation lines were torn apart in a netlist
 read from standard input

---
 ahkab/netlist_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index d67cbd0..d442753 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -164,11 +164,11 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
     else:
         buf = ""
         for aline in sys.stdin:
-            buf += aline + "\n"
+            buf += aline
         ffile = StringIO(buf)
 
     file_list = [(ffile, "unknown", not read_netlist_from_stdin)]
-    netlist_wd = os.path.split(filename)[0]
+    netlist_wd = os.path.split(filename)[0] if filename is not None else ""
     file_index = 0
     directives = []
     model_directives = []
-- 
2.43.0


From 6bfb23a9e884f82b2a4c2ffd841c1999ea5746ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 42/65] fix: files with upper case letters in their name could
 not be included

---
 ahkab/netlist_parser.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index d442753..862dfd5 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -186,14 +186,16 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
                 if len(line) == 0:
                     break  # check for EOF
                 line_n = line_n + 1
-                line = line.strip().lower()
+                line = line.strip()
                 if line_n == 1:
                     # the first line is always the title
-                    circ.title = line
+                    circ.title = line.lower()
                     continue
                 elif len(line) == 0:
                     continue  # empty line is really empty after strip()
-                line = join_lines(ffile, line)
+                # the case does matter in the names of the included files
+                raw_line = join_lines(ffile, line)
+                line = raw_line.lower()
                 if line[0] == "*":  # comments start with *
                     continue
 
@@ -216,7 +218,7 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
                         current_subckt_temp = []
                     elif line_elements[0] == '.include':
                         file_list.append(
-                            parse_include_directive(line, netlist_wd))
+                            parse_include_directive(raw_line, netlist_wd))
                     elif line_elements[0] == ".end":
                         break
                     elif line_elements[0] == ".plot":
@@ -1820,7 +1822,7 @@ def join_lines(fp, line):
     while True:
         last_pos = fp.tell()
         next = fp.readline()
-        next = next.strip().lower()
+        next = next.strip()
         if not next:
             break
         elif next[0] == '+':
-- 
2.43.0


From b291f842e6a08454f7a9e02aa261850c1dcbc790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:37 +0000
Subject: [PATCH 43/65] fix: netlist files stayed open when parsing them failed

---
 ahkab/netlist_parser.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 862dfd5..5520b1e 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -250,12 +250,12 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
         if len(msg):
             printing.print_general_error(msg)
         printing.print_parse_error(line_n, line)
-        # if not read_netlist_from_stdin:
-            # ffile.close()
         raise NetlistParseError(msg)
-
-    # if not read_netlist_from_stdin:
-        # ffile.close()
+    finally:
+        # whatever happens, leave no file open
+        for fp, _, to_be_closed in file_list:
+            if to_be_closed and fp is not None:
+                fp.close()
 
     models = parse_models(model_directives)
 
@@ -1809,8 +1809,6 @@ def parse_include_directive(line, netlist_wd):
     if not utilities.check_file(path):
         raise RuntimeError("")
 
-    fnew = open(path, "r")
-
     return [None, path, True]
 
 
-- 
2.43.0


From 2172dcf66e70cbe06ef2e417a7c4ff3f2acbbe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:43 +0000
Subject: [PATCH 44/65] fix: rows sent to stdout overtook text printed before,
 and were cut by short writes

---
 ahkab/csvlib.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index 8f764cc..1c371b4 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -124,10 +124,34 @@ def write_headers(filename, headers):
             fp.write("\n")
 
 
+class _raw_stdout(object):
+    """An unbuffered stdout: it may take less than it is given to write."""
+    def __init__(self, raw):
+        self.raw = raw
+
+    def write(self, data):
+        while len(data):
+            n = self.raw.write(data)
+            if not n:
+                raise IOError("The data could not be written to stdout")
+            data = data[n:]
+
+    def flush(self):
+        self.raw.flush()
+
+
+def _is_stdout(filename):
+    return filename == 'stdout' or filename == '-' or filename == sys.stdout
+
+
 def _get_fp(filename, mode="r"):
-    if filename == 'stdout' or filename == '-' or filename == sys.stdout:
+    if _is_stdout(filename):
         if mode == 'w' or mode == 'a' or mode == 'wb' or mode == 'ab':
+            # what was printed before has to come before
+            sys.stdout.flush()
             fp = sys.stdout if not hasattr(sys.stdout, 'buffer') else sys.stdout.buffer
+            if isinstance(fp, io.RawIOBase):
+                fp = _raw_stdout(fp)
         else:
             print("(EE) Mode %s is not supported for stdout." % (mode,))
             fp = None
@@ -138,7 +162,7 @@ def _get_fp(filename, mode="r"):
 
 def _close_fp(fp, filename):
     # flush() and close() are where most write errors show up: let them through
-    if filename == 'stdout':
+    if _is_stdout(filename):
         fp.flush()
     else:
         fp.close()
-- 
2.43.0


From 314353c512bf985759466577a1f5977786140d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:49 +0000
Subject: [PATCH 45/65] fix: warnings of models, csvlib and bfpss went to
 stdout, into the results

---
 ahkab/bfpss.py  |  2 +-
 ahkab/csvlib.py | 11 ++++++-----
 ahkab/diode.py  |  9 +++++----
 ahkab/mosq.py   |  2 +-
 4 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index 07fa548..fd6bb2a 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -342,7 +342,7 @@ def _build_x(mna, step, points, tick, x0=None, n_of_var=None, verbose=3):
         if isinstance(x0, results.op_solution):
             x0 = x0.asarray()
         if x0.shape[0] != n_of_var:
-            print("Warning x0 has the wrong dimensions. Using all 0s.")
+            printing.print_warning("x0 has the wrong dimensions. Using all 0s.")
         else:
             for index in range(points):
                 x = utilities.set_submatrix(row=index*n_of_var, col=0,
diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index 1c371b4..a215a55 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -57,6 +57,7 @@ import os
 import numpy as np
 
 from . import options
+from . import printing
 
 SEPARATOR = u"\t"
 
@@ -88,8 +89,8 @@ def write_csv(filename, data, headers, append=False):
     """
 
     if not data.shape[0] == len(headers):
-        print("(W): write_csv(): data and headers don't match. Continuing anyway.")
-        print("DATA: " + str(data.shape) + " headers length: " + str(len(headers)))
+        printing.print_warning("write_csv(): data and headers don't match. Continuing anyway.")
+        printing.print_warning("DATA: " + str(data.shape) + " headers length: " + str(len(headers)))
 
     headers = SEPARATOR.join(headers) if not append else ""
     fp = _get_fp(filename, 'ab' if append else 'wb')
@@ -153,7 +154,7 @@ def _get_fp(filename, mode="r"):
             if isinstance(fp, io.RawIOBase):
                 fp = _raw_stdout(fp)
         else:
-            print("(EE) Mode %s is not supported for stdout." % (mode,))
+            printing.print_general_error("Mode %s is not supported for stdout." % (mode,))
             fp = None
     else:
         fp = io.open(filename, mode)#, encoding=options.encoding)
@@ -196,7 +197,7 @@ def get_headers_index(headers, load_headers=None, verbose=3):
             his = his + [lowcase_headers.index(lh.lower())]
         except ValueError:
             if verbose:
-                print("(W): header " + lh + " not found. Skipping.")
+                printing.print_warning("header " + lh + " not found. Skipping.")
     return his
 
 
@@ -273,7 +274,7 @@ def load_csv(filename, load_headers=None, nsamples=None, skip=0, verbose=3):
     """
 
     if filename == 'stdout':
-        print("Can't load data from stdout.")
+        printing.print_general_error("Can't load data from stdout.")
         return None, None, None, None
 
     headers = get_headers(filename)
diff --git a/ahkab/diode.py b/ahkab/diode.py
index d3ab44a..e35ab83 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -42,6 +42,7 @@ from scipy.optimize import brentq
 from . import constants
 from . import utilities
 from . import options
+from . import printing
 
 damping_factor = 4.
 
@@ -92,7 +93,7 @@ class diode(object):
             self.device.T = constants.T
 
         if ic is not None:  # fixme
-            print("(W): ic support in diodes is very experimental.")
+            printing.print_warning("ic support in diodes is very experimental.")
             self.dc_guess = ic
         self.ic = ic
         self.off = off
@@ -100,9 +101,9 @@ class diode(object):
             if self.ic is None:
                 self.ic = 0
             else:
-                print("(W): IC statement in diodes takes precedence over OFF.")
-                print("(W): If you are performing a transient simulation with uic=2,")
-                print("(W): you may want to check the initial value.")
+                printing.print_warning("IC statement in diodes takes precedence over OFF.")
+                printing.print_warning("If you are performing a transient simulation with uic=2,")
+                printing.print_warning("you may want to check the initial value.")
 
     def _get_T(self):
         return self.device.T
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index bc16ac8..804fb12 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -476,7 +476,7 @@ class mosq_mos_model(object):
         if VTO is not None:
             self.VTO = self.NPMOS * float(VTO)
             if self.VTO < 0:
-                print("(W): model %s has internal negative VTO (%f V)." % (self.name, self.VTO))
+                printing.print_warning("model %s has internal negative VTO (%f V)." % (self.name, self.VTO))
         elif VFB is not None:
             self.VTO = VFB + PHI + GAMMA * PHI  # inv here??
         else:
-- 
2.43.0


From a1fea455d6c614774944605e38ca11b540a7a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:51 +0000
Subject: [PATCH 46/65] fix: write_headers() wrote text to a binary file and
 did not close it

---
 ahkab/csvlib.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index a215a55..e085cc2 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -113,16 +113,15 @@ def write_headers(filename, headers):
         the signal names, ordered.
 
     """
-    fp = _get_fp(filename, mode="wb")
     headers = copy.copy(headers)
-    if not headers[0][0] == '#':
-        headers[0] = '#' + headers[0]
-    for hi in range(len(headers)):
-        fp.write(headers[hi])
-        if hi < len(headers) - 1:
-            fp.write(SEPARATOR)
-        else:
-            fp.write("\n")
+    if headers[0][0] == '#':
+        headers[0] = headers[0][1:]
+    fp = _get_fp(filename, mode="wb")
+    try:
+        np.savetxt(fp, np.zeros((0, len(headers))), delimiter=SEPARATOR,
+                   header=SEPARATOR.join(headers), comments='#')
+    finally:
+        _close_fp(fp, filename)
 
 
 class _raw_stdout(object):
-- 
2.43.0


From 2a62b0334c8ee57c6cfef5ded8b91bd65ad1c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:37 +0000
Subject: [PATCH 47/65] fix: the shooting analysis left the file of its inner
 transient behind

---
 ahkab/shooting.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/ahkab/shooting.py b/ahkab/shooting.py
index 48cd4fc..2eb68de 100644
--- a/ahkab/shooting.py
+++ b/ahkab/shooting.py
@@ -22,6 +22,9 @@
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
+import os
+import tempfile
+
 import numpy as np
 import numpy.linalg
 
@@ -147,13 +150,19 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
     printing.print_info_line(("Starting TRAN analysis for algorithm init: " +
                               ("stop=%g, step=%g... " % (10*points*step, step)),
                               3), verbose, print_nl=False)
-    xtran = transient.transient_analysis(circ=circ, tstart=0, tstep=step,
-                                         tstop=10*points*step, method="TRAP",
-                                         x0=None, mna=mna, N=Tf, D=D,
-                                         use_step_control=False,
-                                         outfile=outfile+".tran",
-                                         return_req_dict={"points": points},
-                                         verbose=0)
+    # of this analysis, just the points returned are of interest
+    tranfile = tempfile.NamedTemporaryFile(suffix='.tran', delete=False)
+    tranfile.close()
+    try:
+        xtran = transient.transient_analysis(circ=circ, tstart=0, tstep=step,
+                                             tstop=10*points*step, method="TRAP",
+                                             x0=None, mna=mna, N=Tf, D=D,
+                                             use_step_control=False,
+                                             outfile=tranfile.name,
+                                             return_req_dict={"points": points},
+                                             verbose=0)
+    finally:
+        os.remove(tranfile.name)
     if xtran is None:
         printing.print_info_line(("failed.", 1), verbose)
         return None
-- 
2.43.0


From b8a9d978a515f3a1bf5d049349b0ccdd95e074f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:25 +0000
Subject: [PATCH 48/65] fix: get_dc_guess prints nothing when it is asked to be
 silent

---
 ahkab/dc_guess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/dc_guess.py b/ahkab/dc_guess.py
index e300003..2a38fe0 100644
--- a/ahkab/dc_guess.py
+++ b/ahkab/dc_guess.py
@@ -128,7 +128,7 @@ def get_dc_guess(circ, verbose=3):
     if not one_element_with_dc_guess_found:
         if verbose == 5:
             print("DBG: get_dc_guess(): no element has a dc_guess")
-        elif verbose <= 3:
+        elif verbose and verbose <= 3:
             print("skipped.")
         return None
 
-- 
2.43.0


From 0faf3fbfe4938de94e73cd628dd59843f96331c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:25 +0000
Subject: [PATCH 49/65] fix: the operating point guess of a diode with an ic is
 a list, like every other

---
 ahkab/components/TunnelJunction.py | 2 +-
 ahkab/diode.py                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/components/TunnelJunction.py b/ahkab/components/TunnelJunction.py
index eec5268..8e50bc1 100644
--- a/ahkab/components/TunnelJunction.py
+++ b/ahkab/components/TunnelJunction.py
@@ -55,7 +55,7 @@ class TunnelJunction(Component):
 
         if self.ic is not None:  # fixme
             print("(W): ic support in tunnel junctions is very experimental.")
-            self.dc_guess = ic
+            self.dc_guess = [ic]
 
     def i(self, op_index, ports_v, time=0):  # with gmin added
         '''It returns the current flowing into the element if the voltages specified in the voltages_vector are applied to its ports, at the time given.'''
diff --git a/ahkab/diode.py b/ahkab/diode.py
index e35ab83..4873555 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -94,7 +94,7 @@ class diode(object):
 
         if ic is not None:  # fixme
             printing.print_warning("ic support in diodes is very experimental.")
-            self.dc_guess = ic
+            self.dc_guess = [ic]
         self.ic = ic
         self.off = off
         if self.off:
-- 
2.43.0


From 59fecaf0fd327cd857ba1ba8944c2a8b02289704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 50/65] fix: the thermal voltage of a diode follows its
 temperature

---
 ahkab/diode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 4873555..d4733e2 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -423,4 +423,5 @@ class diode_model(object):
              (1 + self.TRS*(self.T - T_DEFAULT))
         # all or nothing: the next update starts from what is stored here
         self.EG, self.IS, self.BV, self.RS, self.T = EG, IS, BV, RS, T
+        self.VT = constants.Vth(T)
 
-- 
2.43.0


From 5541dcf5f90d76a63cec6ea9afce5a21fdc8a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:20 +0000
Subject: [PATCH 51/65] fix: a diode line in a netlist may set the temperature
 and the off flag

---
 ahkab/netlist_parser.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 5520b1e..9112e54 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -752,15 +752,14 @@ def parse_elem_diode(line, circ, models=None):
             break
         param, value = parse_param_value_from_string(line_elements[index])
 
-        value = convert_units(value)
         if param == "area":
-            Area = value
+            Area = convert_units(value)
         elif param == "t":
-            T = value
+            T = convert_units(value)
         elif param == "ic":
-            ic = value
+            ic = convert_units(value)
         elif param == "off":
-            if not len(value):
+            if value == "":
                 off = True
             else:
                 off = convert_boolean(value)
@@ -775,7 +774,7 @@ def parse_elem_diode(line, circ, models=None):
     if model_label not in models:
         raise NetlistParseError("parse_elem_diode(): Unknown model id: " + model_label)
     elem = diode.diode(part_id=line_elements[0], n1=n1, n2=n2, model=models[
-                       model_label], AREA=Area, ic=ic, off=off)
+                       model_label], AREA=Area, T=T, ic=ic, off=off)
     return [elem]
 
 
-- 
2.43.0


From 33acd9a54e2a6e3fe60cf34fe04108fadab63035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:13 +0000
Subject: [PATCH 52/65] fix: files made for an analysis at a temporary place
 are all removed, by their owner only

The operating point leaves a .opinfo file and the symbolic analysis a .tfs
file next to the temporary output file: they were left behind at exit. A
forked process (multiprocessing, os.fork) removed the files of its parent.
---
 ahkab/ahkab.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index 9c84396..e5878b3 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -148,6 +148,7 @@ from __future__ import (unicode_literals, absolute_import,
 
 import atexit
 import copy
+import errno
 import os
 import sys
 import tempfile
@@ -206,7 +207,20 @@ _temp_outfiles = {}
 def _register_temp_outfile(outfile):
     """Have the temporary file ``outfile`` removed upon exit"""
     _temp_outfiles[outfile] = False
-    atexit.register(os.remove, outfile)
+    atexit.register(_remove_temp_outfile, outfile, os.getpid())
+
+
+def _remove_temp_outfile(outfile, pid):
+    """Remove ``outfile`` and what an analysis may have written next to it"""
+    if os.getpid() != pid:
+        # a forked process: the files belong to the parent
+        return
+    for filename in (outfile, outfile + 'info', outfile + '.tfs'):
+        try:
+            os.remove(filename)
+        except OSError as e:
+            if e.errno != errno.ENOENT:
+                printing.print_warning("Could not remove %s: %s" % (filename, e))
 
 
 def _get_outfile(outfile):
-- 
2.43.0


From 60efda8e6f83da78e2dfde151706dfd2cd4a7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 53/65] fix: a damaged file of symbolic results is refused when
 loaded

A file with a hole (power loss right after the save) could be loaded without
a hint, with part of its content replaced by zeros. The files now carry a
digest; the ones written before are still read.
---
 ahkab/results.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index ceb7c84..580cb9f 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -96,6 +96,7 @@ Module reference
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
+import hashlib
 import sys
 import time
 import pickle
@@ -906,6 +907,9 @@ class pss_solution(solution, _mutable_data):
     def get_xlabel(self):
         return self.variables[0]
 
+# the first bytes of a file with symbolic results
+_SYMBOLIC_MAGIC = b'ahkab symbolic\n'
+
 class symbolic_solution(object):
     """Symbolic results
 
@@ -1017,8 +1021,10 @@ class symbolic_solution(object):
         if not self.filename:
             raise RuntimeError("Writing the results to file requires setting the \
                               'filename' attribute")
+        data = pickle.dumps(self, protocol=2)
         with open(self.filename, 'wb') as fp:
-            pickle.dump(self, fp, protocol=2)
+            # the digest tells apart the files damaged, eg, by a crash
+            fp.write(_SYMBOLIC_MAGIC + hashlib.sha1(data).digest() + data)
 
     @staticmethod
     def load(filename):
@@ -1041,8 +1047,14 @@ class symbolic_solution(object):
 
         """
         with open(filename, 'rb') as fp:
-            asolution = pickle.load(fp)
-        return asolution
+            data = fp.read()
+        # the files written by previous versions are plain pickles
+        if data.startswith(_SYMBOLIC_MAGIC):
+            data = data[len(_SYMBOLIC_MAGIC):]
+            digest, data = data[:20], data[20:]
+            if digest != hashlib.sha1(data).digest():
+                raise IOError("The file %s is damaged." % filename)
+        return pickle.loads(data)
 
     def __str__(self):
         str_repr = "Symbolic %s results for '%s' (netlist %s).\nRun on %s.\n" % \
-- 
2.43.0


From 523e4ebaa42c95c61917738479cc3c9c88050f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:37 +0000
Subject: [PATCH 54/65] fix: the power of a VCCS is computed from its sense
 voltage

---
 ahkab/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 580cb9f..69c9eb1 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -373,8 +373,8 @@ class op_solution(solution, _mutable_data):
                 v = v + x[elem.n1-1] if elem.n1 != 0 else v
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
                 vs = 0
-                vs = vs + x[elem.n1-1] if elem.sn1 != 0 else vs
-                vs = vs - x[elem.n2-1] if elem.sn2 != 0 else vs
+                vs = vs + x[elem.sn1-1] if elem.sn1 != 0 else vs
+                vs = vs - x[elem.sn2-1] if elem.sn2 != 0 else vs
                 tot_power = tot_power - v*vs*elem.alpha
             elif isinstance(elem, components.sources.ISource):
                 v = 0
-- 
2.43.0


From 221b3ac5df47d11a6b9fa14621844c25f49fe0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:37 +0000
Subject: [PATCH 55/65] fix: the power of a CCVS and of the voltage sources
 after it

---
 ahkab/results.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 69c9eb1..695b51c 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -382,7 +382,8 @@ class op_solution(solution, _mutable_data):
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
                 tot_power = tot_power - v*elem.I()
             elif isinstance(elem, components.sources.VSource) or \
-                 isinstance(elem, components.sources.EVSource):
+                 isinstance(elem, components.sources.EVSource) or \
+                 isinstance(elem, components.sources.HVSource):
                 v = 0
                 v = v + x[elem.n1-1] if elem.n1 != 0 else v
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
@@ -405,15 +406,6 @@ class op_solution(solution, _mutable_data):
                 v = v + x[elem.n1 - 1] if elem.n1 != 0 else v
                 v = v - x[elem.n2 - 1] if elem.n2 != 0 else v
                 tot_power = tot_power - v * elem.alpha * x[nv_1 + local_i_index, 0]
-            elif isinstance(elem, components.sources.HVSource):
-                try:
-                    local_i_index = circ.find_vde_index(elem.source_id)
-                except ValueError:
-                    raise RuntimeError("Sensing voltage source %s for %s not found. BUG!" %
-                                       (elem.source_id, elem.part_id))
-                local_i_index2 = circ.find_vde_index(elem.part_id)
-                tot_power = tot_power - elem.alpha*x[nv_1 + local_i_index, 0]* \
-                                        x[nv_1 + local_i_index2, 0]
             elif circuit.is_elem_voltage_defined(elem):
                 i_index = i_index + 1
 
-- 
2.43.0


From a86611c389b0091e40838f21dfd6e7441210b5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:52 +0000
Subject: [PATCH 56/65] fix: a single node as output port of a PZ analysis

---
 ahkab/pz.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 1d8c889..f86d434 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -181,8 +181,7 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
             input_source = input_source.part_id
         if type(output_port) in py3compat.string_types:
             output_port = plotting._split_netlist_label(output_port)[0] 
-            output_port = [o[1:] for o in output_port]
-            output_port = [o.lower() for o in output_port]
+            output_port = [o[1:].lower() for o in output_port if o is not None]
             if len(output_port) == 1:
                 # we refer to the ground implicitely
                 output_port += ['0']
-- 
2.43.0


From f7c3d2ee8d5362503945eea25abb0934e920a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:52 +0000
Subject: [PATCH 57/65] fix: PZ analysis of nonlinear circuits calls a function
 that is not there

---
 ahkab/pz.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index f86d434..22dacb1 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -213,7 +213,11 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                     # hopefully x0 is an ndarray!
                 printing.print_info_line(("Using the supplied op as " +
                                       "linearization point.", 5), verbose)
-            J, _ = dc_analysis.build_J_and_Tx(x0, MNA.shape[0]-1, mc, time=0., sparse=False)
+            J = np.zeros((MNA.shape[0] - 1, MNA.shape[0] - 1))
+            Tx = np.zeros((MNA.shape[0] - 1, 1))
+            for elem in mc:
+                if elem.is_nonlinear:
+                    dc_analysis._update_J_and_Tx(J, Tx, x0, elem, time=None)
             MNA[1:, 1:] += J
     D = transient.generate_D(mc, MNA[1:, 1:].shape)
     MNAinv = np.linalg.inv(MNA[1:, 1:] + shift*D[1:, 1:])
-- 
2.43.0


From d1b4dcf93b018b186c6576714b5249f1e68f4d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:06 +0000
Subject: [PATCH 58/65] fix: PZ analysis ignores the coupling of inductors

---
 ahkab/pz.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 22dacb1..3d4f0d5 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -110,6 +110,13 @@ def _enlarge_matrix(M):
         return np.vstack((np.hstack((M, np.zeros((M.shape[0], 1)))),
                          np.zeros((1, M.shape[1] + 1))))
 
+def _add_mutual(mc, elem, MC, nodes_m1):
+    """Add to the excitation ``MC`` due to an inductor, the voltages induced in
+    the inductors it is coupled to, referred to its own inductance."""
+    for cd in elem.coupling_devices:
+        other = mc.find_vde_index(cd.get_other_inductor(elem.part_id), verbose=0)
+        MC[nodes_m1 + other, 0] -= cd.M / elem.value
+
 def calculate_poles(mc, MNA=None, x0=None, outfile=None, verbose=0):
     """Calculate the circuit poles.
 
@@ -234,6 +241,7 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
             MC[e1.n2 - 1, 0] -= 1. if e1.n2 > 0 else 0.
         elif isinstance(e1, components.Inductor):
             MC[nodes_m1 + vde1] += -1.
+            _add_mutual(mc, e1, MC, nodes_m1)
         elif calc_zeros and e1.part_id == input_source:
             if isinstance(e1, components.sources.VSource):
                 MC[nodes_m1 + vde1] += -1.
@@ -300,6 +308,7 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                 MC[e1.n2 - 1, 0] -= 1. if e1.n2 > 0 else 0.
             elif isinstance(e1, components.Inductor):
                 MC[nodes_m1 + vde1, 0] += -1.
+                _add_mutual(mc, e1, MC, nodes_m1)
             else:
                 continue
             TV = -1.*np.dot(MNAinv, MC)
-- 
2.43.0


From 701589ce7a792e32c394d0a85e34ddc3017f7d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:43 +0000
Subject: [PATCH 59/65] fix: PZ analysis recurses without end for singularities
 at infinity, and loses precision on the poles when it moves to another
 frequency

---
 ahkab/pz.py | 54 ++++++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 3d4f0d5..a41b179 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -282,17 +282,19 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                 ROUTIN += TV[o1 - 1, 0]
             if o2:
                ROUTIN -= TV[o2 - 1, 0]
+            # a null transfer, but for the rounding errors
+            ports = [o - 1 for o in (o1, o2) if o]
+            if np.abs(ROUTIN) <= 1e-13*np.dot(np.abs(MNAinv[ports, :]),
+                                              np.abs(MC)).sum():
+                ROUTIN = 0
         else:
             dei_source += 1
         # reset, get ready to restart
         MC[:, :] = 0.
     if TCM is not None:
-        if np.linalg.det(TCM):
+        # null eigenvalues are poles at infinity: they are discarded below
+        with np.errstate(divide='ignore', invalid='ignore'):
             poles = 1./(2.*np.pi)*(1./np.linalg.eigvals(TCM) + shift)
-        else:
-            return calculate_singularities(mc, input_source, output_port, MNA=MNA,
-                                           outfile=outfile, 
-                                           shift=shift+np.abs(1+SHIFT_KICK)*1e3)
     else:
         poles = []
     if calc_zeros and TCM is not None:
@@ -325,30 +327,26 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
         RIIN = np.array(RIIN).reshape((-1, 1))
         RIIN = np.tile(RIIN, (1, RIIN.shape[0]))
         ROUT = np.diag(np.atleast_1d(np.array(ROUT)))
-        if ROUT.any():
-            try:
-                if not np.all(ROUTIN) or not np.isfinite(ROUTIN):
-                    # immediate catch
-                    raise ValueError("ROUT-IN is either Inf, NaN or null")
-                ZTCM = TCM - np.dot(RIIN, ROUT)/ROUTIN
-                if not (np.isfinite(ZTCM).all()):
-                    raise ValueError("Array contains infs, NaNs or both")
-                    # immediate catch
-                eigvals = np.linalg.eigvals(ZTCM)
-                if not np.all(eigvals) or not np.isfinite(eigvals).all():
-                    # immediate catch
-                    raise ValueError("ZTCM eigenvalues contain either Inf, NaN or null values")
-                zeros = 1./(2.*np.pi)*(1./np.linalg.eigvals(ZTCM) + shift)
-            except ValueError:
-                return calculate_singularities(mc, input_source, output_port, 
-                                           MNA=MNA, outfile=outfile,
-                                           shift=shift+np.abs(SHIFT_KICK+1)*1e3)
-        elif shift < 1e12:
-            return calculate_singularities(mc, input_source, output_port, 
-                                       MNA=MNA, outfile=outfile,
-                                       shift=shift*np.abs(SHIFT_KICK+1)*10)
-        else:
+        if not ROUT.any():
+            # the output does not depend on the state variables
             zeros = []
+        elif not np.all(ROUTIN) or not np.isfinite(ROUTIN):
+            # ROUT-IN is either Inf, NaN or null: look for the zeros from
+            # another frequency, unless there is no transfer at all
+            if np.abs(shift) < 1e12:
+                zeros = calculate_singularities(mc, input_source, output_port,
+                                                MNA=MNA,
+                                                shift=10*np.abs(shift) +
+                                                (1 + SHIFT_KICK)*1e3).zeros
+            else:
+                zeros = []
+        else:
+            ZTCM = TCM - np.dot(RIIN, ROUT)/ROUTIN
+            if not (np.isfinite(ZTCM).all()):
+                raise ValueError("PZ: the zeros could not be computed.")
+            # null eigenvalues are zeros at infinity
+            with np.errstate(divide='ignore', invalid='ignore'):
+                zeros = 1./(2.*np.pi)*(1./np.linalg.eigvals(ZTCM) + shift)
     else:
         zeros = []
     poles = np.array([a for a in poles if np.abs(a) < options.pz_max], dtype=np.complex_)
-- 
2.43.0


From 4b70bec79d44e021b7dc93ddbeecc3c9fc3d3058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:15 +0000
Subject: [PATCH 60/65] fix: calculate_poles fails and ignores its arguments

---
 ahkab/pz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index a41b179..8286c36 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -141,7 +141,8 @@ def calculate_poles(mc, MNA=None, x0=None, outfile=None, verbose=0):
         The PZ solution, with no zeros.
     """
     return calculate_singularities(mc, input_source=None, output_port=None, 
-                                   MNA=None, shift=0)[0]
+                                   MNA=MNA, x0=x0, shift=0, outfile=outfile,
+                                   verbose=verbose)
 
 def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                             x0=None, shift=0, outfile=None, verbose=0):
-- 
2.43.0


From 14681745c0e36451f57b8157a6a3cd407c1ad81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:15 +0000
Subject: [PATCH 61/65] fix: a node name as output port of a PZ analysis is
 refused

---
 ahkab/pz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 8286c36..f70fa98 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -187,6 +187,9 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
     if calc_zeros:
         if type(input_source) not in py3compat.string_types:
             input_source = input_source.part_id
+        if type(output_port) in py3compat.string_types and '(' not in output_port:
+            # a node, referred to the ground
+            output_port = (output_port, mc.gnd)
         if type(output_port) in py3compat.string_types:
             output_port = plotting._split_netlist_label(output_port)[0] 
             output_port = [o[1:].lower() for o in output_port if o is not None]
-- 
2.43.0


From 9c2d037a3881b4810bd7452bbacca0c999ff5d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:09 +0000
Subject: [PATCH 62/65] fix: numeric VCCS, inductors and couplings in a
 symbolic analysis

---
 ahkab/symbolic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 77ccd94..5515a00 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -412,7 +412,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 if alpha in subs:  # instant substitution
                     alpha = subs[alpha]
             else:
-                alpha = elem.value
+                alpha = elem.alpha
             mna[elem.n1, elem.sn1] = mna[elem.n1, elem.sn1] + alpha
             mna[elem.n1, elem.sn2] = mna[elem.n1, elem.sn2] - alpha
             mna[elem.n2, elem.sn1] = mna[elem.n2, elem.sn1] - alpha
@@ -510,7 +510,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                         if L in subs:  # instant substitution
                             L = subs[L]
                     else:
-                        L = elem.L
+                        L = elem.value
                     mna[index, index] = -s * L
                 else:
                     pass
@@ -533,7 +533,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                     if M in subs:  # instant substitution
                         M = subs[M]
                 else:
-                    M = cd.K
+                    M = cd.M
                 # get `part_id` of the other inductor (eg. "L32")
                 other_id_wdescr = cd.get_other_inductor(elem.part_id)
                 # find its index to know which column corresponds to
-- 
2.43.0


From c07480199b37c2fc7ad87f6badb09a2b1a248137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:09 +0000
Subject: [PATCH 63/65] fix: symbolic analysis fails with the manual solver, or
 if there is no solution

---
 ahkab/symbolic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 5515a00..0423699 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -179,7 +179,9 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     printing.print_info_line(("Solving...", 1), verbose)
 
     sol = sympy.solve(
-            eq, x, manual=options.symb_sympy_manual_solver, simplify=True)
+            eq, x, manual=options.symb_sympy_manual_solver, simplify=True,
+            dict=True)
+    sol = sol[0] if sol else {}
 
     for ks in list(sol.keys()):
         sol.update({ks: sol[ks].subs(subs_g)})
-- 
2.43.0


From 1176b6e69be52b6bc1c041a8ac88c229ae6d6ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:09 +0000
Subject: [PATCH 64/65] fix: symbolic analysis mixes up a node's voltage and a
 source with the same name

---
 ahkab/symbolic.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 0423699..32ac55a 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -166,11 +166,12 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     printing.print_info_line((sympy.sstr(N), 5), verbose)
 
     printing.print_info_line(("Building equations...", 3), verbose)
-    eq = []
-    for i in _to_real_list(mna * x + N):
-        eq.append(sympy.Eq(i, 0))
-
+    # a node may bear the name of a source, eg. the node 1 and the source V1
+    known = mna.free_symbols | N.free_symbols
     x = _to_real_list(x)
+    eq_x = [sympy.Dummy(v.name) if v in known else v for v in x]
+    eq = [sympy.Eq(i, 0)
+          for i in _to_real_list(mna * sympy.Matrix(eq_x) + N)]
 
     if verbose > 3:
         printing.print_symbolic_equations(eq)
@@ -179,9 +180,10 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     printing.print_info_line(("Solving...", 1), verbose)
 
     sol = sympy.solve(
-            eq, x, manual=options.symb_sympy_manual_solver, simplify=True,
+            eq, eq_x, manual=options.symb_sympy_manual_solver, simplify=True,
             dict=True)
-    sol = sol[0] if sol else {}
+    names = dict(zip(eq_x, x))
+    sol = dict((names[k], e) for k, e in sol[0].items()) if sol else {}
 
     for ks in list(sol.keys()):
         sol.update({ks: sol[ks].subs(subs_g)})
-- 
2.43.0


From 4ef101c94ca480c583852748c1cb10198b49b4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:49 +0000
Subject: [PATCH 65/65] fix: substitutions ignored in a symbolic analysis
 (sources, couplings, resistors formulated as conductances)

---
 ahkab/symbolic.py | 62 ++++++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 32ac55a..80d7d9a 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -377,8 +377,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
             if elem.is_symbolic:
                 R = _symbol_factory(elem.part_id.upper(), real=True,
                                     positive=True)
-                if R in subs:  # instant substitution
-                    R = subs[R]
+                R = _substitute(R, subs)  # instant substitution
                 if options.symb_formulate_with_gs:
                     G = _symbol_factory('Gxxx' + str(R)[1:], real=True,
                                         positive=True)
@@ -398,8 +397,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 if elem.is_symbolic:
                     capa = _symbol_factory(
                         elem.part_id.upper(), real=True, positive=True)
-                    if capa in subs:  # instant substitution
-                        capa = subs[capa]
+                    capa = _substitute(capa, subs)  # instant substitution
                 else:
                     capa = elem.value
                 mna[elem.n1, elem.n1] = mna[elem.n1, elem.n1] + s * capa
@@ -413,8 +411,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
         elif isinstance(elem, components.sources.GISource):
             if elem.is_symbolic:
                 alpha = _symbol_factory(elem.part_id.upper(), real=True)
-                if alpha in subs:  # instant substitution
-                    alpha = subs[alpha]
+                alpha = _substitute(alpha, subs)  # instant substitution
             else:
                 alpha = elem.alpha
             mna[elem.n1, elem.sn1] = mna[elem.n1, elem.sn1] + alpha
@@ -424,16 +421,14 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
         elif isinstance(elem, components.sources.ISource):
             if elem.is_symbolic:
                 IDC = _symbol_factory(elem.part_id.upper())
-                if IDC in subs:  # instant substitution
-                    IDC = subs[IDC]
+                IDC = _substitute(IDC, subs)  # instant substitution
             else:
                 IDC = elem.dc_value
             N[elem.n1, 0] = N[elem.n1, 0] + IDC
             N[elem.n2, 0] = N[elem.n2, 0] - IDC
         elif isinstance(elem, mosq.mosq_device) or isinstance(elem, ekv.ekv_device):
             gm = _symbol_factory('gm_' + elem.part_id, real=True, positive=True)
-            if gm in subs:  # instant substitution
-                gm = subs[gm]
+            gm = _substitute(gm, subs)  # instant substitution
             mna[elem.n1, elem.ng] = mna[elem.n1, elem.ng] + gm
             mna[elem.n1, elem.n2] = mna[elem.n1, elem.n2] - gm
             mna[elem.n2, elem.ng] = mna[elem.n2, elem.ng] - gm
@@ -441,16 +436,14 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
             if opts['r0s']:
                 r0 = _symbol_factory(
                     'r0_' + elem.part_id, real=True, positive=True)
-                if r0 in subs:  # instant substitution
-                    r0 = subs[r0]
+                r0 = _substitute(r0, subs)  # instant substitution
                 mna[elem.n1, elem.n1] = mna[elem.n1, elem.n1] + 1 / r0
                 mna[elem.n1, elem.n2] = mna[elem.n1, elem.n2] - 1 / r0
                 mna[elem.n2, elem.n1] = mna[elem.n2, elem.n1] - 1 / r0
                 mna[elem.n2, elem.n2] = mna[elem.n2, elem.n2] + 1 / r0
         elif isinstance(elem, diode.diode):
             gd = _symbol_factory("g" + elem.part_id, positive=True)
-            if gd in subs:  # instant substitution
-                gd = subs[gd]
+            gd = _substitute(gd, subs)  # instant substitution
             mna[elem.n1, elem.n1] = mna[elem.n1, elem.n1] + gd
             mna[elem.n1, elem.n2] = mna[elem.n1, elem.n2] - gd
             mna[elem.n2, elem.n1] = mna[elem.n2, elem.n1] - gd
@@ -483,16 +476,14 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
             if isinstance(elem, components.sources.VSource):
                 if elem.is_symbolic:
                     VDC = _symbol_factory(elem.part_id.upper())
-                    if VDC in subs:  # instant substitution
-                        VDC = subs[VDC]
+                    VDC = _substitute(VDC, subs)  # instant substitution
                 else:
                     VDC = elem.dc_value
                 N[index, 0] = -VDC
             elif isinstance(elem, components.sources.EVSource):
                 if elem.is_symbolic:
                     alpha = _symbol_factory(elem.part_id.upper(), real=True)
-                    if alpha in subs:  # instant substitution
-                        alpha = subs[alpha]
+                    alpha = _substitute(alpha, subs)  # instant substitution
                 else:
                     alpha = elem.alpha
                 mna[index, elem.sn1] = mna[index, elem.sn1] - alpha
@@ -500,8 +491,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
             elif isinstance(elem, components.sources.HVSource):
                 if elem.is_symbolic:
                     alpha = _symbol_factory(elem.part_id.upper(), real=True)
-                    if alpha in subs:  # instant substitution
-                        alpha = subs[alpha]
+                    alpha = _substitute(alpha, subs)  # instant substitution
                 else:
                     alpha = elem.alpha
                 source_index = circ.find_vde_index(elem.source_id)
@@ -511,8 +501,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                     if elem.is_symbolic:
                         L = _symbol_factory(
                             elem.part_id.upper(), real=True, positive=True)
-                        if L in subs:  # instant substitution
-                            L = subs[L]
+                        L = _substitute(L, subs)  # instant substitution
                     else:
                         L = elem.value
                     mna[index, index] = -s * L
@@ -534,8 +523,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 if cd.is_symbolic:
                     M = _symbol_factory(
                         cd.part_id, real=True, positive=True)
-                    if M in subs:  # instant substitution
-                        M = subs[M]
+                    M = _substitute(M, subs)  # instant substitution
                 else:
                     M = cd.M
                 # get `part_id` of the other inductor (eg. "L32")
@@ -551,8 +539,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
             source_current_index = circ.find_vde_index(elem.source_id, verbose=0)
             if elem.is_symbolic:
                 F = _symbol_factory(elem.part_id, real=True)
-                if F in subs:  # instant substitution
-                    F = subs[F]
+                F = _substitute(F, subs)  # instant substitution
             else:
                 F = elem.alpha
             mna[elem.n1, pre_vde + source_current_index] += +F
@@ -587,12 +574,6 @@ def _parse_substitutions(sdict):
 
     This method is typically called by :func:`symbolic_analysis`.
 
-    .. note::
-
-        For what regards the resistors, the method will check the value
-        of ``options.symb_formulate_with_gs`` and convert the resistors
-        to conductances as needed, according to the option value.
-
     **Parameters:**
 
     sdict : a dict of strings
@@ -608,12 +589,8 @@ def _parse_substitutions(sdict):
     """
     subs = {}
     for v1, v2 in py3compat.iteritems(sdict):
-        if v1[0].upper() == 'R' and options.symb_formulate_with_gs:
-            letter_id1 = 'G' + _COND_POSTFIX
-            letter_id2 = 'G' + _COND_POSTFIX
-        else:
-            letter_id1 = v1[0].upper()
-            letter_id2 = v2[0].upper()
+        letter_id1 = v1[0].upper()
+        letter_id2 = v2[0].upper()
         if letter_id1[0] in ('R', 'G', 'L', 'C', 'M'):
             s1 = _symbol_factory(letter_id1 + v1[1:], real=True, positive=True)
         else:
@@ -625,6 +602,15 @@ def _parse_substitutions(sdict):
         subs.update({s1:s2})
     return subs
 
+def _substitute(symbol, subs):
+    """Get the symbol to be used in place of ``symbol``, according to the
+    substitution dictionary ``subs``, under the assumptions made on ``symbol``.
+    """
+    for old, new in subs.items():
+        if old.name == symbol.name:
+            return sympy.Symbol(new.name, **symbol.assumptions0)
+    return symbol
+
 def _symbol_factory(name, **options):
     filtered_options = {}
     for i in options:
-- 
2.43.0

