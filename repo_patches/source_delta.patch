From 87db7714302a3f69ed4f58681bbdcd4f3b5ab19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 001/107] fix: allow vertices-in relations at the end of
 parenthesized region expressions

---
 sfepy/discrete/parse_regions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/parse_regions.py b/sfepy/discrete/parse_regions.py
index 72f2d3f..05cb506 100644
--- a/sfepy/discrete/parse_regions.py
+++ b/sfepy/discrete/parse_regions.py
@@ -141,12 +141,12 @@ def create_bnf(stack):
     coor = oneOf('x y z')
     boolop = oneOf('& |')
     relop = oneOf('< > <= >= != ==')
-    bool_term = (ZeroOrMore('(') + (coor | fnumber) + relop + (coor | fnumber)
-                 + ZeroOrMore(')'))
+    bool_term = (coor | fnumber) + relop + (coor | fnumber)
     relation = Forward()
-    relation << (ZeroOrMore('(')
-                 + bool_term + ZeroOrMore(boolop + relation)
-                 + ZeroOrMore(')'))
+    # Parentheses have to be balanced, so that a closing parenthesis of an
+    # enclosing region expression is not taken by the relation.
+    bool_atom = bool_term | (Literal('(') + relation + Literal(')'))
+    relation << bool_atom + ZeroOrMore(boolop + bool_atom)
     relation = Group(relation).setParseAction(join_tokens)
 
     nos = Group(vertices + _of + surface).setParseAction(replace('E_VOS'))
-- 
2.43.0


From a56d7ef342542380151a607418bf99839ae9ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 002/107] fix: obey allow_empty in regions given by empty sets
 of edges or faces

---
 sfepy/discrete/common/region.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index bd8f097..2c7b0f3 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -487,6 +487,10 @@ class Region(Struct):
         all already existing (accessed) entities of lower topological dimension
         from the kind entities.
         """
+        if allow_empty:
+            # Entities of no dimension may be present, see
+            # Region.setup_from_highest().
+            self.is_empty = True
         self._access(self.kind_tdim)
         is_empty = self.entities[self.kind_tdim].shape[0] == 0
         if allow_empty:
-- 
2.43.0


From a501f79f75a0a15c838dda4bdc620e5f0b812bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 003/107] fix: compute correct centroids of triangular faces of
 wedge cells

---
 sfepy/discrete/common/extmods/mesh.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index a95183b..1badae8 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -887,7 +887,7 @@ int32 mesh_select_complete(Mesh *mesh, Mask *mask, int32 dim,
 int32 mesh_get_centroids(Mesh *mesh, float64 *ccoors, int32 dim)
 {
   uint32 nc = mesh->geometry->dim;
-  uint32 id;
+  uint32 id, ik, nv;
   float64 *ptr = ccoors;
   float64 *coors = mesh->geometry->coors;
   MeshEntityIterator it0[1], it1[1];
@@ -896,13 +896,21 @@ int32 mesh_get_centroids(Mesh *mesh, float64 *ccoors, int32 dim)
     for (id = 0; id < nc; id++) {
       ptr[id] = 0.0;
     }
+    nv = 0;
     for (mei_init_conn(it1, it0->entity, 0); mei_go(it1); mei_next(it1)) {
+      // Triangular faces of wedges are stored with a repeated vertex.
+      for (ik = 0; ik < it1->it; ik++) {
+        if (it1->ptr[ik] == it1->entity->ii) break;
+      }
+      if (ik < it1->it) continue;
+
       for (id = 0; id < nc; id++) {
         ptr[id] += coors[nc * it1->entity->ii + id];
       }
+      nv++;
     }
     for (id = 0; id < nc; id++) {
-      ptr[id] /= (float64) it1->it_end;
+      ptr[id] /= (float64) nv;
     }
     ptr += nc;
   }
-- 
2.43.0


From eb47b62e6e7ff958c2833a5026d426448076f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 004/107] fix: do not lose EPBC relations of DOFs in several
 periodic conditions

---
 sfepy/discrete/common/dof_info.py | 36 ++++++++++---------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/sfepy/discrete/common/dof_info.py b/sfepy/discrete/common/dof_info.py
index 10e3b4f..90f47ea 100644
--- a/sfepy/discrete/common/dof_info.py
+++ b/sfepy/discrete/common/dof_info.py
@@ -331,6 +331,7 @@ class EquationMap(Struct):
         eq_ebc = nm.zeros((self.var_di.n_dof,), dtype=nm.int32)
         val_ebc = nm.zeros((self.var_di.n_dof,), dtype=field.dtype)
         master_slave = nm.zeros((self.var_di.n_dof,), dtype=nm.int32)
+        pairs = []
         chains = []
 
         active_bcs = set()
@@ -455,34 +456,19 @@ class EquationMap(Struct):
                 seq = expand_nodes_to_equations(nslave[i2], bc.dofs[1],
                                                 self.dof_names)
 
-                m_assigned = nm.where(master_slave[meq] != 0)[0]
-                s_assigned = nm.where(master_slave[seq] != 0)[0]
-                if m_assigned.size or s_assigned.size: # Chain EPBC.
-                    aux = master_slave[meq[m_assigned]]
-                    sgn = nm.sign(aux)
-                    om_chain = zip(meq[m_assigned], (aux - sgn) * sgn)
-                    chains.extend(om_chain)
+                pairs.append(nm.c_[meq, seq])
 
-                    aux = master_slave[seq[s_assigned]]
-                    sgn = nm.sign(aux)
-                    os_chain = zip(seq[s_assigned], (aux - sgn) * sgn)
-                    chains.extend(os_chain)
+        if len(pairs):
+            pairs = nm.concatenate(pairs)
+            # A DOF in several pairs -> chain EPBC.
+            counts = nm.bincount(pairs.ravel(), minlength=self.var_di.n_dof)
+            is_chain = (counts[pairs] > 1).any(1)
 
-                    m_chain = zip(meq[m_assigned], seq[m_assigned])
-                    chains.extend(m_chain)
+            meq, seq = pairs[~is_chain].T
+            master_slave[meq] = seq + 1
+            master_slave[seq] = - meq - 1
 
-                    msd = nm.setdiff1d(s_assigned, m_assigned)
-                    s_chain = zip(meq[msd], seq[msd])
-                    chains.extend(s_chain)
-
-                    msa = nm.union1d(m_assigned, s_assigned)
-                    ii = nm.setdiff1d(nm.arange(meq.size), msa)
-                    master_slave[meq[ii]] = seq[ii] + 1
-                    master_slave[seq[ii]] = - meq[ii] - 1
-
-                else:
-                    master_slave[meq] = seq + 1
-                    master_slave[seq] = - meq - 1
+            chains.extend(map(tuple, pairs[is_chain]))
 
         chains = group_chains(chains)
         resolve_chains(master_slave, chains)
-- 
2.43.0


From 7d5202a61e112db8688777048daf47c935b23c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 005/107] fix: compare times of time steppers by their
 differences

---
 sfepy/solvers/ts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index 4b1f50a..d44f6cf 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -111,8 +111,8 @@ class TimeStepper(Struct):
     def __eq__(self, other):
 
         if type(other) == type(self):
-            return (abs(self.t0 == other.t0) < 1e-15) and \
-                   (abs(self.t1 == other.t1) < 1e-15) and \
+            return (abs(self.t0 - other.t0) < 1e-15) and \
+                   (abs(self.t1 - other.t1) < 1e-15) and \
                    (self.n_step == other.n_step)
         else:
             raise ValueError
-- 
2.43.0


From 676520374b9680f4bbba174d93c199a1b49cee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 006/107] fix: do not make an extra step due to round-off
 errors in VariableTimeStepper

---
 sfepy/solvers/ts.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index d44f6cf..cb7e816 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -187,18 +187,24 @@ class VariableTimeStepper(TimeStepper):
     def get_default_time_step(self):
         return self.dt0
 
+    def _set_time(self, time):
+        # Avoid an additional time step caused by the round-off errors.
+        if abs(time - self.t1) < (1e-6 * abs(self.dt)):
+            time = self.t1
+
+        self.time = time
+        self.normalize_time()
+
     def set_time_step(self, dt, update_time=False):
         self.dt = dt
 
         if update_time:
-            self.time = self.times[self.step - 1] + self.dt
+            self._set_time(self.times[self.step - 1] + self.dt)
             self.times[self.step] = self.time
-            self.normalize_time()
 
     def advance(self):
         self.step += 1
-        self.time += self.dt
-        self.normalize_time()
+        self._set_time(self.time + self.dt)
 
         self.times.append(self.time)
 
-- 
2.43.0


From 11efca854763b2ba476e53202b616bf08fe69199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 007/107] fix: guess the initial time step from the given DOF
 vector

---
 sfepy/solvers/ts_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_controllers.py b/sfepy/solvers/ts_controllers.py
index 79bc596..0cefc61 100644
--- a/sfepy/solvers/ts_controllers.py
+++ b/sfepy/solvers/ts_controllers.py
@@ -125,7 +125,7 @@ class ElastodynamicsBasicTSC(TimeStepController):
         eps_a = min(*conf.eps_a)
         eps_r = min(*conf.eps_r)
 
-        aux = unpack(vec0)
+        aux = unpack(vec)
         u0, v0, a0 = aux if unpack.n_arg == 3 else (aux[0], aux[2], aux[3])
 
         d0 = eval_scaled_norm(u0, eps_a, eps_r)
-- 
2.43.0


From 2fce1d496930d1d2e63b60ad30f6608871a513ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 008/107] fix: return the final time state from elastodynamics
 solvers

---
 sfepy/solvers/ts_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index c486fc3..af25e91 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -756,7 +756,7 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
 
             vec = vect
 
-        return vec
+        return vect
 
 class VelocityVerletTS(ElastodynamicsBaseTS):
     """
-- 
2.43.0


From f6b7af786cd1e3d56386cab904b7065f262495ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 009/107] fix: evaluate loads at the sub-step times in BatheTS

---
 sfepy/solvers/ts_solvers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index af25e91..3baea99 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -1310,13 +1310,18 @@ class BatheTS(ElastodynamicsBaseTS):
         Solve a single time step.
         """
         dt = ts.dt
+        # Set time to t_{n+1/2} = t_{n+1} - dt / 2.
+        ts.set_substep_time(- 0.5 * dt)
+        vec = prestep_fun(ts, vec)
+
         ut, vt, at = unpack(vec)
         nlst1 = self.create_nlst1(nls, dt, ut, vt, at)
         ut1 = nlst1(ut)
         vt1 = nlst1.v(ut1)
         at1 = nlst1.a(vt1)
 
-        ts.set_substep_time(0.5 * dt)
+        # Restore t_{n+1}.
+        ts.restore_step_time()
 
         vec1 = pack(ut1, vt1, at1)
         vec1 = prestep_fun(ts, vec1)
@@ -1326,8 +1331,6 @@ class BatheTS(ElastodynamicsBaseTS):
         vt2 = nlst2.v(ut2)
         at2 = nlst2.a(vt2)
 
-        ts.restore_step_time()
-
         vec2 = pack(ut2, vt2, at2)
 
         return vec2
-- 
2.43.0


From 27b0046f46c5f2a6c6ca550cced590bfd6ac6a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 010/107] fix: allow giving up in line search with give_up_warp

---
 sfepy/solvers/nls.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index a415abd..9ed98bc 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -198,6 +198,7 @@ def apply_line_search_bt(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
         else: # Failure.
             if conf.give_up_warp:
                 output('giving up!')
+                vec_x, vec_r, err = vec_x0, vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
@@ -366,6 +367,7 @@ def apply_line_search_ipc(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
         else: # Failure.
             if conf.give_up_warp:
                 output('giving up!')
+                vec_x, vec_r, err = vec_x0, vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
-- 
2.43.0


From 8f2623f86e0df6015c748bea6f718bba6bc5cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 011/107] fix: report convergence of ScipyRoot by the zero
 condition

---
 sfepy/solvers/nls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index 9ed98bc..f569339 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -773,7 +773,7 @@ class ScipyRoot(NonlinearSolver):
             status['err'] = err
             status['n_iter'] = nit
             status['n_fev'] = sol.nfev
-            status['condition'] = sol.status
+            status['condition'] = 0 if sol.success else 1
 
         if conf.report_status:
             output(sol.message)
-- 
2.43.0


From 419d60954b5e1e4594626702db9b554205d32914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 012/107] fix: use the Jacobian of the active part in the
 non-smooth mode of SemismoothNewton

---
 sfepy/solvers/semismooth_newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 7af80c5..93ed6d5 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -308,7 +308,7 @@ class SemismoothNewton(Newton):
                 mul_b[iz] = ((mtx_b_z @ vec_z) / sqrt_ab) - 1.0
 
         else:
-            iz = nm.where(vec_a_r > vec_b_r)[0]
+            iz = nm.where(vec_a_r < vec_b_r)[0]
             mul_a = nm.zeros_like(vec_a_r)
             mul_b = nm.ones_like(mul_a)
 
-- 
2.43.0


From 426a0ec080033020465e4bb9d1c6a78c5fd525e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 013/107] fix: make the active part of the semismooth Jacobian
 work with sparse arrays

---
 sfepy/solvers/semismooth_newton.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 93ed6d5..fac84c2 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -298,12 +298,10 @@ class SemismoothNewton(Newton):
                 mtx_a_z = mtx_a[iz]
                 mtx_b_z = mtx_b[iz]
 
-                sqrt_ab = nm.empty((iz.shape[0],), dtype=vec_a_r.dtype)
-                for ir in range(len(iz)):
-                    row_a_z = mtx_a_z[ir]
-                    row_b_z = mtx_b_z[ir]
-                    sqrt_ab[ir] = nm.sqrt((row_a_z @ row_a_z.T).todense()
-                                          + (row_b_z @ row_b_z.T).todense())
+                sqrt_ab = nm.sqrt(
+                    nm.asarray(mtx_a_z.multiply(mtx_a_z).sum(axis=1)).ravel()
+                    + nm.asarray(mtx_b_z.multiply(mtx_b_z).sum(axis=1)).ravel()
+                )
                 mul_a[iz] = ((mtx_a_z @ vec_z) / sqrt_ab) - 1.0
                 mul_b[iz] = ((mtx_b_z @ vec_z) / sqrt_ab) - 1.0
 
-- 
2.43.0


From d1367fbc33ec139c20012ff494ee546bb58d2ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 014/107] fix: check the scaled linear system error in the line
 search in the error mode

---
 sfepy/solvers/nls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index f569339..7817ff0 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -536,6 +536,7 @@ class Newton(NonlinearSolver):
             lin_solver.mtx = smtx_a
 
         else:
+            smtx_a = lin_solver.mtx
             _, svec_r, svec_x = scale_system(None, vec_r, vec_x,
                                              self.context)
             svec_dx = lin_solver(svec_r, x0=svec_x,
-- 
2.43.0


From 5acb0027dbbc7925d0c744e4e5d316c7c7d208b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 015/107] fix: call the callback given in options of iterative
 linear solvers

---
 sfepy/solvers/ls.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 4f47a90..c6c6c12 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -319,8 +319,9 @@ class ScipyIterative(LinearSolver):
 
         setup_precond = get_default(kwargs.get('setup_precond', None),
                                     self.conf.setup_precond)
-        callback = get_default(kwargs.get('callback', lambda sol: None),
-                               self.conf.callback)
+        callback = get_default(kwargs.get('callback', None),
+                               get_default(self.conf.callback,
+                                           lambda sol: None))
 
         self.iter = 0
         def iter_callback(sol):
@@ -467,8 +468,9 @@ class PyAMGSolver(LinearSolver):
         eps_r = get_default(eps_r, self.conf.eps_r)
         i_max = get_default(i_max, self.conf.i_max)
 
-        callback = get_default(kwargs.get('callback', lambda sol: None),
-                               self.conf.callback)
+        callback = get_default(kwargs.get('callback', None),
+                               get_default(self.conf.callback,
+                                           lambda sol: None))
 
         self.iter = 0
         def iter_callback(sol):
@@ -571,8 +573,9 @@ class PyAMGKrylovSolver(LinearSolver):
 
         setup_precond = get_default(kwargs.get('setup_precond', None),
                                     self.conf.setup_precond)
-        callback = get_default(kwargs.get('callback', lambda sol: None),
-                               self.conf.callback)
+        callback = get_default(kwargs.get('callback', None),
+                               get_default(self.conf.callback,
+                                           lambda sol: None))
 
         self.iter = 0
         def iter_callback(sol):
-- 
2.43.0


From 432d8ca75321d5d02f6f83e2d61a0c2dbe55d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 016/107] fix: compare also positions of entries in the matrix
 symmetry check of MUMPSSolver

---
 sfepy/solvers/ls.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index c6c6c12..f3f52f3 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -885,11 +885,17 @@ class MUMPSSolver(LinearSolver):
         if idxs_l.shape[0] != idxs_u.shape[0]:
             return False
 
-        iu = nm.lexsort((row[idxs_u], col[idxs_u]))
-        il = nm.lexsort((col[idxs_l], row[idxs_l]))
+        if idxs_u.shape[0] == 0:
+            return True
 
-        err = nm.abs(data[idxs_u[iu]] - data[idxs_l[il]])
-        if nm.any(err/nm.abs(data[idxs_u].max()) >= tol):
+        iu = idxs_u[nm.lexsort((row[idxs_u], col[idxs_u]))]
+        il = idxs_l[nm.lexsort((col[idxs_l], row[idxs_l]))]
+
+        if (row[iu] != col[il]).any() or (col[iu] != row[il]).any():
+            return False
+
+        err = nm.abs(data[iu] - data[il])
+        if nm.any(err > tol * nm.abs(data[iu]).max()):
             return False
 
         return True
-- 
2.43.0


From cc7856ad35ad384b3a5b6be88a8c9f05324fddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 017/107] fix: do not reuse MUMPS instance for matrices with a
 different symmetry or type

---
 sfepy/solvers/ls.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index f3f52f3..d9080f0 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -905,7 +905,8 @@ class MUMPSSolver(LinearSolver):
                           'cannot import MUMPS!')
 
         LinearSolver.__init__(self, conf, mumps=aux['mumps'], mumps_ls=None,
-                              mumps_presolved=False, **kwargs)
+                              mumps_presolved=False, mumps_mode=None,
+                              **kwargs)
         self.clear()
 
     @standard_call
@@ -936,11 +937,16 @@ class MUMPSSolver(LinearSolver):
                 mtx = mtx.tocoo()
 
             is_sym = self.coo_is_symmetric(mtx)
+            system = 'complex' if mtx.dtype.name.startswith('complex')\
+                else 'real'
+
+            if self.mumps_mode != (system, is_sym):
+                # The mode is given in the construction of the MUMPS instance.
+                self.clear()
+                self.mumps_mode = (system, is_sym)
 
             if self.mumps_ls is None:
                 if self.mumps.__name__ == 'mumpspy':
-                    system = 'complex' if mtx.dtype.name.startswith('complex')\
-                        else 'real'
                     mem_relax = self.conf.memory_relaxation
                     self.mumps_ls = self.mumps.MumpsSolver(system=system,
                                                            is_sym=is_sym,
-- 
2.43.0


From c130b5ddd8d123a2491d711c58a360ee06cd7f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 018/107] fix: pass context to the first available solver

---
 sfepy/solvers/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/solvers.py b/sfepy/solvers/solvers.py
index c68cfc7..850736e 100644
--- a/sfepy/solvers/solvers.py
+++ b/sfepy/solvers/solvers.py
@@ -90,7 +90,7 @@ def use_first_available(solver_list, context=None, **kwargs):
             if isinstance(solver, str):
                 out = Solver.any_from_conf(_conf, context=context, **kwargs)
             else:
-                out = solver(_conf, contex=context, **kwargs)
+                out = solver(_conf, context=context, **kwargs)
 
             output("using '%s' solver" % name)
             break
-- 
2.43.0


From b24dfe460d4e92ed57b2e433e1c7cb105be20d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 019/107] fix: allow presolving after calls without the matrix
 digest

---
 sfepy/solvers/ls.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index d9080f0..2e65dc5 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -208,7 +208,7 @@ class ScipyDirect(LinearSolver):
             is_new, mtx_digest = _is_new_matrix(mtx, self.mtx_digest)
 
         else:
-            is_new, mtx_digest = False, None
+            is_new, mtx_digest = False, (0, '')
 
         if is_new or (self.solve is None):
             self.solve = self.sls.factorized(mtx.tocsc())
@@ -930,7 +930,7 @@ class MUMPSSolver(LinearSolver):
             is_new, mtx_digest = _is_new_matrix(mtx, self.mtx_digest)
 
         else:
-            is_new, mtx_digest = False, None
+            is_new, mtx_digest = False, (0, '')
 
         if is_new or (self.mumps_ls is None):
             if not isinstance(mtx, sps.coo_array):
@@ -1012,7 +1012,7 @@ class CholeskySolver(ScipyDirect):
             is_new, mtx_digest = _is_new_matrix(mtx, self.mtx_digest)
 
         else:
-            is_new, mtx_digest = False, None
+            is_new, mtx_digest = False, (0, '')
 
         if is_new or (self.solve is None):
             self.solve = self.sls(mtx.tocsc())
-- 
2.43.0


From 758c15877da2cca5920717eb356b4810cbb917e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 020/107] fix: order facet DOFs consistently in surface
 integrals of orders > 2 in 3D

---
 sfepy/discrete/fem/fields_nodal.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/sfepy/discrete/fem/fields_nodal.py b/sfepy/discrete/fem/fields_nodal.py
index ef2ed5a..a703f50 100644
--- a/sfepy/discrete/fem/fields_nodal.py
+++ b/sfepy/discrete/fem/fields_nodal.py
@@ -137,6 +137,32 @@ class GlobalNodalLikeBasis(Struct):
 
         return n_dof, all_dofs, remap
 
+    def _setup_esurface(self):
+        """
+        Setup extended surface entities, see :class:`FEField`. The DOFs of all
+        the facets in 3D are ordered as the DOFs of the first facet, because
+        its basis is used in surface integrals.
+        """
+        FEField._setup_esurface(self)
+
+        gel = self.gel
+        if ((gel.dim < 3) or (self.node_desc.edge is None)
+            or isinstance(gel.surface_facet, dict)):
+            return
+
+        n_fp = gel.surface_facet.n_vertex
+        coors = self.poly_space.node_coors
+
+        def _get_facet_coors(face):
+            xx = coors[face] - coors[face[0]]
+            mtx = xx[[1, n_fp - 1]]
+            return nm.linalg.solve(mtx @ mtx.T, mtx @ xx.T).T
+
+        fcoors0 = _get_facet_coors(self.efaces[0])
+        for face in self.efaces[1:]:
+            dist = nm.abs(fcoors0[:, None] - _get_facet_coors(face)).sum(2)
+            face[:] = face[dist.argmin(1)]
+
     def get_surface_basis(self, region):
         """
         Get basis for projections to region's facets.
-- 
2.43.0


From cca7d5171d960345fb5aa913776125e4035e0f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 021/107] fix: component order of DOF values set in regions of
 vector hierarchic fields

---
 sfepy/discrete/fem/fields_hierarchic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_hierarchic.py b/sfepy/discrete/fem/fields_hierarchic.py
index 1998d64..56f10f5 100644
--- a/sfepy/discrete/fem/fields_hierarchic.py
+++ b/sfepy/discrete/fem/fields_hierarchic.py
@@ -220,7 +220,7 @@ class H1HierarchicVolumeField(H1Mixin, FEField):
             raise ValueError('unknown function/value type! (%s)' % type(fun))
 
         nods, indx = nm.unique(nods, return_index=True)
-        ii = (nm.tile(dpn * indx, dpn)
+        ii = (nm.repeat(dpn * indx, dpn)
               + nm.tile(nm.arange(dpn, dtype=nm.int32), indx.shape[0]))
         vals = vals[ii]
 
-- 
2.43.0


From 2eeb23bf9a17aad9b879dece5e439a9d6e10a3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 022/107] fix: extension of cell-wise constant DOFs of fields
 in subregions

---
 sfepy/discrete/fem/fields_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 983556b..c939bc0 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -820,7 +820,7 @@ class FEField(Field):
             new_dofs[indx] = dofs[:indx.size]
 
         else:
-            new_dofs = extend_cell_data(dofs, self.domain, self.region,
+            new_dofs = extend_cell_data(dofs, self.domain, self.region.name,
                                         val=fill_value)
 
         return new_dofs
-- 
2.43.0


From 1c7543dd826e49b5783db2ac8c2932dd12c2154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 023/107] fix: averaging of quadrature point data to vertices
 in fields in subregions

---
 sfepy/discrete/fem/fields_base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index c939bc0..a400317 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1419,11 +1419,10 @@ class FEField(Field):
 
         rg = self.get_mapping(self.region, integral, region.kind)[0]
 
-        area = nm.squeeze(rg.volume)
-        iels = self.region.get_cells()
+        area = rg.volume.ravel()
 
         data_e = nm.zeros((area.shape[0], 1, nc, 1), dtype=nm.float64)
-        rg.integrate(data_e, data_qp[iels])
+        rg.integrate(data_e, data_qp)
 
         ir = nm.arange(nc, dtype=nm.int32)
 
@@ -1437,7 +1436,7 @@ class FEField(Field):
         for ii, cc in enumerate(conn):
             # Assumes unique nodes in cc!
             ind2, ind1 = nm.meshgrid(ir, cc)
-            data_vertex[ind1, ind2] += data_e[iels[ii], 0, :, 0]
+            data_vertex[ind1, ind2] += data_e[ii, 0, :, 0]
             nod_vol[cc] += area[ii]
 
         data_vertex /= nod_vol[:, nm.newaxis]
-- 
2.43.0


From 2c56cc693eb40938d7feb2163b94138b6eb0f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 024/107] fix: node coordinates, region DOFs and output of
 discontinuous fields of order > 0

---
 sfepy/discrete/fem/fields_base.py  |  5 ++--
 sfepy/discrete/fem/fields_nodal.py | 41 +++++++++++++++++++++++++-----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index a400317..afbd460 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1411,7 +1411,7 @@ class FEField(Field):
                                                      data_qp.shape[0])
             raise ValueError(msg)
 
-        n_vertex = self.n_vertex_dof
+        n_vertex = region.vertices.shape[0]
         nc = data_qp.shape[2]
 
         nod_vol = nm.zeros((n_vertex,), dtype=nm.float64)
@@ -1427,7 +1427,8 @@ class FEField(Field):
         ir = nm.arange(nc, dtype=nm.int32)
 
         if region.kind == 'cell':
-            conn = self.econn[:, :self.gel.n_vertex]
+            conn = self.domain.get_conn(tdim=region.tdim, cells=region.cells)
+            conn = self.vertex_remap[conn]
         elif region.kind == 'facet':
             sd = self.domain.surface_groups[region.name]
             # Should be vertex connectivity!
diff --git a/sfepy/discrete/fem/fields_nodal.py b/sfepy/discrete/fem/fields_nodal.py
index a703f50..7411258 100644
--- a/sfepy/discrete/fem/fields_nodal.py
+++ b/sfepy/discrete/fem/fields_nodal.py
@@ -15,11 +15,12 @@ import numpy as nm
 
 from sfepy.base.base import assert_, Struct
 from sfepy.discrete.integrals import Integral
-from sfepy.discrete.fem.utils import prepare_remap
+from sfepy.discrete.fem.utils import prepare_remap, invert_remap
 from sfepy.discrete.common.dof_info import expand_nodes_to_dofs
 from sfepy.discrete.common.mappings import get_physical_qps
 from sfepy.discrete.fem.facets import get_facet_dof_permutations
-from sfepy.discrete.fem.fields_base import FEField, H1Mixin
+from sfepy.discrete.fem.fields_base import (FEField, H1Mixin,
+                                             eval_nodal_coors)
 
 class GlobalNodalLikeBasis(Struct):
 
@@ -531,8 +532,38 @@ class H1DiscontinuousField(H1NodalMixin, FEField):
 
         self.n_vertex_dof = self.n_edge_dof = self.n_face_dof = 0
 
+        # For averaging to vertices.
+        self.vertex_remap = prepare_remap(self.region.vertices,
+                                          self.region.n_v_max)
+        self.vertex_remap_i = invert_remap(self.vertex_remap)
+
         self._setup_esurface()
 
+    def set_coors(self, coors, extra_dofs=False):
+        """
+        Set coordinates of field nodes.
+        """
+        if extra_dofs:
+            FEField.set_coors(self, coors, extra_dofs=extra_dofs)
+
+        else:
+            eval_nodal_coors(self.coors, coors, self.region, self.poly_space,
+                             self.geom_poly_space, self.econn,
+                             only_extra=False)
+
+    def get_dofs_in_region(self, region, merge=True):
+        """
+        Return indices of DOFs that belong to the given region. All the DOFs
+        belong to cell interiors.
+        """
+        empty = nm.empty((0,), dtype=nm.int32)
+        bdofs = empty
+        if region.has_cells():
+            els = self.bubble_remap[region.cells]
+            bdofs = self.bubble_dofs[els[els >= 0]].ravel()
+
+        return bdofs if merge else [empty, empty, empty, bdofs]
+
     def extend_dofs(self, dofs, fill_value=None):
         """
         Extend DOFs to the whole domain using the `fill_value`, or the
@@ -550,11 +581,9 @@ class H1DiscontinuousField(H1NodalMixin, FEField):
         Remove DOFs defined in higher order nodes (order > 1).
         """
         if self.approx_order != 0:
-            dofs = self.average_to_vertices(dofs)
-
-        new_dofs = FEField.remove_extra_dofs(self, dofs)
+            return self.average_to_vertices(dofs)
 
-        return new_dofs
+        return FEField.remove_extra_dofs(self, dofs)
 
     def average_to_vertices(self, dofs):
         """
-- 
2.43.0


From ba6f55c3db2a66b0d99b8cba31bd7d588f564e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 025/107] fix: forget the stale reduced state of variables with
 LCBCs

init_state(), apply_ic() and set_state_parts() kept the reduced state vector of
the previous state, and set_reduced_state() stored a reference to the caller's
array.
---
 sfepy/discrete/variables.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index f052efa..6d06594 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -664,6 +664,7 @@ class Variables(Container):
             var.locked = True
 
         self.vec = vec
+        self.r_vec = None
 
     def fill_state(self, value):
         """
@@ -694,6 +695,7 @@ class Variables(Container):
         """
         if vec is None:
             vec = self.vec
+            self.r_vec = None
             self.invalidate_evaluate_caches(step=0)
 
         for var in self.iter_state():
@@ -774,7 +776,7 @@ class Variables(Container):
         self.vec[:] = self.make_full_vec(r_vec)
 
         if self.has_lcbc:
-            self.r_vec = r_vec
+            self.r_vec = r_vec.copy()
 
         if not preserve_caches:
             self.invalidate_evaluate_caches(step=0)
@@ -873,6 +875,7 @@ class Variables(Container):
 
         if vec is None:
             vec = self.vec
+            self.r_vec = None
             self.invalidate_evaluate_caches(step=0)
 
         else:
-- 
2.43.0


From d7c0a646974943982e777c1c35dc7383568fa71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 026/107] fix: set and get data of variable time steps
 consistently

The data of the given (non-positive) step were stored using data[step] but
obtained using data[-step], and a single slice was used for all the steps, so
setting one step corrupted the others.
---
 sfepy/discrete/variables.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 6d06594..dab45de 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1230,7 +1230,7 @@ class Variable(Struct):
                     self.data[ii] = self.data[ii-1].copy()
 
             for ii in range(self.history, 0, -1):
-                self.data[ii][self.indx] = self.data[ii - 1][self.indx]
+                self.data[ii][:] = self.data[ii - 1]
 
             # Advance evaluate cache.
             for step_cache in self.evaluate_cache.values():
@@ -1309,8 +1309,11 @@ class Variable(Struct):
                              % (step, -(len(self.data) - 1)))
 
         else:
-            self.data[step] = data
-            self.indx = indx
+            # Store only the part belonging to the variable, so that the data of
+            # the time steps can have different layouts.
+            self.data[-step] = data[indx]
+            if step == 0:
+                self.indx = indx
 
         if not preserve_caches:
             self.invalidate_evaluate_cache(step=step)
@@ -1350,7 +1353,7 @@ class Variable(Struct):
                 raise ValueError('data of variable are not set! (%s, step %d)' \
                                  % (self.name, step))
 
-            return data[self.indx]
+            return data
 
         else:
             if self.history is None:
@@ -1517,10 +1520,7 @@ class FieldVariable(Variable):
 
         # Field nodes values.
         data = self.field.interp_v_vals_to_n_vals(data_vertex)
-        data = data.ravel()
-        self.indx = slice(0, len(data))
-
-        self.data[step] = data
+        self.set_data(data, step=step)
 
     def set_from_mesh_vertices(self, data):
         """
@@ -1794,10 +1794,9 @@ class FieldVariable(Variable):
 
         eq = nm.empty((len(nods) * self.n_components,), dtype=nm.int32)
         for idof in range(self.n_components):
-            eq[idof::self.n_components] = self.n_components * nods \
-                                          + idof + self.indx.start
+            eq[idof::self.n_components] = self.n_components * nods + idof
 
-        out = self.data[step][eq]
+        out = self(step=step)[eq]
         if reshape:
             out.shape = (len(nods), self.n_components)
 
-- 
2.43.0


From 625ace07d1b190d9c92bb645856d281b86f5933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 027/107] fix: keep evaluate caches of variables in step with
 DOFs

The caches ignored the time step used in derivatives, a basis passed by the
caller, a change of the previous step data, init_history() and gaps in the
cached steps when advancing.
---
 sfepy/discrete/variables.py | 50 ++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index dab45de..066adae 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1219,6 +1219,7 @@ class Variable(Struct):
         """
         if self.history is None: return
 
+        is_initial = self.step == 0
         self.step = ts.step + 1
 
         if self.history > 0:
@@ -1234,20 +1235,23 @@ class Variable(Struct):
 
             # Advance evaluate cache.
             for step_cache in self.evaluate_cache.values():
-                steps = sorted(step_cache.keys())
+                if None in step_cache:
+                    # Special caches with possible custom advance()
+                    # function.
+                    for key, val in step_cache[None].items():
+                        if hasattr(val, '__advance__'):
+                            val.__advance__(ts, val)
+
+                steps = sorted(step for step in step_cache.keys()
+                               if step is not None)
+                old = {step : step_cache.pop(step) for step in steps}
                 for step in steps:
-                    if step is None:
-                        # Special caches with possible custom advance()
-                        # function.
-                        for key, val in step_cache[step].items():
-                            if hasattr(val, '__advance__'):
-                                val.__advance__(ts, val)
+                    if is_initial and (step == -1):
+                        # The step -1 data are those of step 0, see __call__().
+                        continue
 
-                    elif -step < self.history:
-                        step_cache[step-1] = step_cache[step]
-
-                if len(steps) and (steps[0] is not None):
-                    step_cache.pop(steps[-1])
+                    if -step < self.history:
+                        step_cache[step-1] = old[step]
 
     def init_data(self, step=0):
         """
@@ -1653,6 +1657,14 @@ class FieldVariable(Variable):
 
         return data_shape
 
+    def init_history(self):
+        """Initialize data of variables with history."""
+        if self.history is None: return
+
+        Variable.init_history(self)
+        for step in range(0, -self.history - 1, -1):
+            self.invalidate_evaluate_cache(step=step)
+
     def clear_evaluate_cache(self):
         """
         Clear current evaluate cache.
@@ -1668,9 +1680,10 @@ class FieldVariable(Variable):
         solver iteration.
         """
         for step_cache in self.evaluate_cache.values():
-            for key in list(step_cache.keys()):
-                if key == step: # Given time step to clear.
-                    step_cache.pop(key)
+            # Given time step to clear. The time derivatives in the following
+            # time step depend on its data as well.
+            step_cache.pop(step, None)
+            step_cache.pop(step + 1, None)
 
     def evaluate(self, mode='val',
                  region=None, integral=None, integration=None,
@@ -1747,11 +1760,13 @@ class FieldVariable(Variable):
         geo, _, key = field.get_mapping(region, integral, integration,
                                         return_key=True)
         key += (time_derivative, trace_region)
+        if time_derivative is not None:
+            key += (get_default(dt, self.dt),)
 
         dct = ('cell' if integration == 'facet_extra' else integration,
                region.tdim)
 
-        if key in cache:
+        if (bf is None) and (key in cache):
             out = cache[key]
 
         else:
@@ -1766,7 +1781,8 @@ class FieldVariable(Variable):
             else:
                 out = eval_complex(vec, conn, geo, mode, shape, bf)
 
-            cache[key] = out
+            if bf is None:
+                cache[key] = out
 
         return out
 
-- 
2.43.0


From 461f532209fd9ed6422fb96127f220ade50075e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 028/107] fix: never use zero chunk size in
 create_matrix_graph()

---
 sfepy/discrete/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index 7cdfb01..7011ada 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -114,7 +114,7 @@ def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
 
         # N - k C >= 0.5 C, k = N // Cmax, compute C.
         n_cell = srdc.shape[0]
-        cs = int(n_cell / (n_cell // chunk_size + 0.5))
+        cs = max(int(n_cell / (n_cell // chunk_size + 0.5)), 1)
         for ichunk, (_rdc, _cdc) in enumerate(chunk_arrays((srdc, scdc), cs)):
             if ichunk == 0:
                 block = create_dof_graph(_rdc, _cdc, shape, active_only)
-- 
2.43.0


From f55cdacc224cf5c6d662cf6e0c669c93f24f485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 029/107] fix: recompute active DOF connectivities when
 active_only changes

---
 sfepy/discrete/equations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index 7011ada..159d9dd 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -186,6 +186,7 @@ class Equations(Container):
         """
         self.append(equation)
         self.variables.extend(
+        self.active_only = None
              set(equation.collect_variables() ) - set(self.variables)
         )
         self.materials.extend(
@@ -414,7 +415,8 @@ class Equations(Container):
         active_bcs = self.variables.equation_mapping(ebcs, epbcs, ts, functions,
                                                      problem=problem,
                                                      active_only=active_only)
-        graph_changed = active_bcs != self.active_bcs
+        graph_changed = ((active_bcs != self.active_bcs)
+                         or (self.active_only not in (None, active_only)))
         self.active_bcs = active_bcs
 
         if graph_changed or not self.variables.adof_conns:
@@ -430,6 +432,7 @@ class Equations(Container):
 
         self.variables.setup_lcbc_operators(lcbcs, ts, functions)
 
+        self.active_only = active_only
         for eq in self:
             for term in eq.terms:
                 term.time_update(ts)
-- 
2.43.0


From 3d2db89f5623baf00355d55638e0bdbab3cd433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 030/107] fix: select terms by identity when evaluating by
 terms

---
 sfepy/discrete/equations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index 159d9dd..f66f573 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -863,10 +863,10 @@ class Equations(Container):
                 for it, term in enumerate(eq.terms):
                     if select_term:
                         _select_term = (lambda x: select_term(x)
-                                        and (x.name == term.name))
+                                        and (x is term))
 
                     else:
-                        _select_term = lambda x: x.name == term.name
+                        _select_term = lambda x: x is term
 
                     ir = get_indx(term.get_virtual_name(),
                                   reduced=True, allow_dual=True)
@@ -959,10 +959,10 @@ class Equations(Container):
                 for it, term in enumerate(eq.terms):
                     if select_term:
                         _select_term = (lambda x: select_term(x)
-                                        and (x.name == term.name))
+                                        and (x is term))
 
                     else:
-                        _select_term = lambda x: x.name == term.name
+                        _select_term = lambda x: x is term
 
                     ir = get_indx(term.get_virtual_name(),
                                   reduced=True, allow_dual=True)
-- 
2.43.0


From ec3fec1c623a73832ae5895f127b1324d2c31be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 031/107] fix: matrix graph blocks of equations with missing or
 shared variables

---
 sfepy/discrete/equations.py | 42 ++++++++++++++++++++++++-------------
 sfepy/terms/terms.py        |  3 ++-
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index f66f573..f8a42e3 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -65,6 +65,18 @@ def create_dof_graph(rdc, cdc, shape, active_only=False):
 
     return graph
 
+def get_graph_blocks(di):
+    """
+    Get the matrix graph blocks corresponding to a DOF info: the indices of the
+    blocks of the variables and the slices of the blocks. Variables with shared
+    DOFs share the block.
+    """
+    names = [name for name in di.indx if name not in di.shared_dofs]
+    ids = {name : names.index(di.shared_dofs.get(name, name))
+           for name in di.indx}
+
+    return ids, [di.indx[name] for name in names]
+
 def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
                         chunk_size=200000):
     """
@@ -92,12 +104,14 @@ def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
         The matrix graph.
     """
     blocks = []
-    roffs = [ii.start for ii in rdi.indx.values()]
-    coffs = [ii.start for ii in cdi.indx.values()]
-    nrs = [ii.stop - ii.start for ii in rdi.indx.values()]
-    ncs = [ii.stop - ii.start for ii in cdi.indx.values()]
-
-    nbr, nbc = max(irs) + 1, max(ics) + 1
+    _, rindxs = get_graph_blocks(rdi)
+    _, cindxs = get_graph_blocks(cdi)
+    roffs = [ii.start for ii in rindxs]
+    coffs = [ii.start for ii in cindxs]
+    nrs = [ii.stop - ii.start for ii in rindxs]
+    ncs = [ii.stop - ii.start for ii in cindxs]
+
+    nbr, nbc = len(nrs), len(ncs)
     blocks = [[0] * nbc for ir in range(nbr)]
     for ii, rdc in enumerate(rdcs):
         cdc = cdcs[ii]
@@ -130,7 +144,7 @@ def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
 
     for ir, ic in cycle((nbr, nbc)):
         if isinstance(blocks[ir][ic], int):
-            blocks[ir][ic] = None
+            blocks[ir][ic] = sp.coo_array((nrs[ir], ncs[ic]), dtype=bool)
 
     graph = sp.block_array(blocks, format='csr')
 
@@ -172,6 +186,7 @@ class Equations(Container):
         self.domain = self.get_domain()
 
         self.active_bcs = set()
+        self.active_only = None
 
         self.collect_conn_info()
 
@@ -186,7 +201,6 @@ class Equations(Container):
         """
         self.append(equation)
         self.variables.extend(
-        self.active_only = None
              set(equation.collect_variables() ) - set(self.variables)
         )
         self.materials.extend(
@@ -418,6 +432,7 @@ class Equations(Container):
         graph_changed = ((active_bcs != self.active_bcs)
                          or (self.active_only not in (None, active_only)))
         self.active_bcs = active_bcs
+        self.active_only = active_only
 
         if graph_changed or not self.variables.adof_conns:
             adcs = create_adof_conns(self.conn_info, self.variables.adi.indx,
@@ -432,7 +447,6 @@ class Equations(Container):
 
         self.variables.setup_lcbc_operators(lcbcs, ts, functions)
 
-        self.active_only = active_only
         for eq in self:
             for term in eq.terms:
                 term.time_update(ts)
@@ -516,6 +530,8 @@ class Equations(Container):
         adcs = self.variables.adof_conns
         rdi = self.variables.avdi
         cdi = self.variables.adi
+        rblocks, _ = get_graph_blocks(rdi)
+        cblocks, _ = get_graph_blocks(cdi)
 
         # Only cell dof connectivities are used, with the exception of trace
         # facet dof connectivities.
@@ -553,15 +569,11 @@ class Equations(Container):
                 rdcs.append(rdc)
                 cdcs.append(cdc)
 
-                irs.append(rdi.indx[rvar.get_primary_name()].start)
-                ics.append(cdi.indx[cvar.get_primary_name()].start)
+                irs.append(rblocks[rname])
+                ics.append(cblocks[cname])
 
                 shared.add(dc_key)
 
-        # Replace offsets by their orders.
-        _, irs = nm.unique(irs, return_inverse=True)
-        _, ics = nm.unique(ics, return_inverse=True)
-
         return rdcs, cdcs, irs, ics
 
     def create_matrix_graph(self, any_dof_conn=False, rdcs=None, cdcs=None,
diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index f608130..41965f5 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -1664,7 +1664,8 @@ class Term(Struct):
                         aux = vvar._variables.adi.indx[vvar.get_primary_name()]
                         irs = slice(aux.start, aux.stop + 1)
 
-                    max_in_rows[vvar.name] = nm.diff(asm_obj.indptr[irs]).max()
+                    max_in_rows[vvar.name] = nm.diff(
+                        asm_obj.indptr[irs]).max(initial=0)
 
                 max_in_row = max_in_rows[vvar.name]
 
-- 
2.43.0


From 428ce44319fa59ab6023829339f62a449662e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 032/107] fix: create groups using the file handle in
 get_or_create_hdf5_group()

---
 sfepy/base/ioutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index 882cf76..9c84a04 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -937,5 +937,5 @@ def get_or_create_hdf5_group(fd, path, from_group=None):
        if name in from_group:
            from_group = getattr(from_group, name)
        else:
-           from_group = pt.create_group(from_group, name)
+           from_group = fd.create_group(from_group, name)
     return from_group
-- 
2.43.0


From da1952256a5effb51b925463b056bda0ad5432d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 033/107] fix: keep vertex groups and material ids of a mesh in
 int32

---
 sfepy/discrete/fem/mesh.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index 5878863..ed54982 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -377,6 +377,7 @@ class Mesh(Struct):
 
         if ngroups is None:
             ngroups = nm.zeros((coors.shape[0],), dtype=nm.int32)
+        ngroups = ac(ngroups, dtype=nm.int32)
 
         self.descs = descs
         self.nodal_bcs = get_default(nodal_bcs, {})
@@ -394,8 +395,8 @@ class Mesh(Struct):
                     descs_.append(dsc)
 
             if len(conns_) > 0:
-                mat_ids_ = ac(nm.concatenate(mat_ids_))
-                self.cmesh_tdim[idim] = CMesh.from_data(coors, ac(ngroups),
+                mat_ids_ = ac(nm.concatenate(mat_ids_), dtype=nm.int32)
+                self.cmesh_tdim[idim] = CMesh.from_data(coors, ngroups,
                                                         conns_, mat_ids_,
                                                         descs_,
                                                         copy_coors=copy_coors)
-- 
2.43.0


From ac4a1c9ebe4dbdbae48a59b3f01097733b0adac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 034/107] fix: close the HDF5 results file after a failed write
 of an existing step

---
 sfepy/discrete/fem/meshio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 1a48e58..616f9a4 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1153,6 +1153,7 @@ class HDF5MeshIO(MeshIO):
                 if xdmf and mesh.coors.shape[1] == 2:
                     data = expand_data_3d(val.data)
                 else:
+                fd.close()
                     data = val.data
 
                 group_name = '__' + key.translate(self._tr)
-- 
2.43.0


From dc4ca6222a67a840f4f1914ed6b09816324af99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 035/107] fix: expand cell data of 2D meshes in the XDMF
 compatible HDF5 output

---
 sfepy/discrete/fem/meshio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 616f9a4..f59afb8 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1099,6 +1099,9 @@ class HDF5MeshIO(MeshIO):
 
         if pt is None:
             raise ValueError('pytables not imported!')
+            if data.ndim == 4: # Cell data.
+                return expand_data_3d(data[:, 0, :, 0])[:, None, :, None]
+
 
         step = get_default_attr(ts, 'step', 0)
         if (step == 0) or not op.exists(filename):
-- 
2.43.0


From 9db3c62485802de848f4786bdc91e98b7c4dfc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 036/107] fix: add line and wedge cells to the XDMF topology
 table

---
 sfepy/discrete/fem/meshio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index f59afb8..fb81050 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1027,9 +1027,11 @@ class HDF5MeshIO(MeshIO):
             for k, v in kwargs['extra_data'].items():
                 d = et.SubElement(et_root, 'Information', attrib={'Name': k})
                 d.text = str(v)
+            '1_2': 'Line',
 
         et_domain = et.SubElement(et_root, 'Domain')
 
+            '3_6': 'Wedge',
         with HDF5ContextManager(filename, mode='r') as fd:
             root = fd.root
             mesh = root.mesh
-- 
2.43.0


From 72b656ee5520f7f8812411375fdbe217d9ee2f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 037/107] fix: read cell data of all cell blocks in
 MeshioLibIO.read_data()

---
 sfepy/discrete/fem/meshio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index fb81050..1967c4e 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -582,12 +582,16 @@ class MeshioLibIO(MeshIO):
             out[key] = Struct(name=key, mode='vertex', data=aux)
 
         for key, data in m.cell_data.items():
-            aux = _fix_shape(data[0]).astype(nm.float64)
+            data = nm.concatenate([dd for ii, dd in enumerate(data)
+                                   if m.cells[ii].dim == tdim])
+            aux = _fix_shape(data).astype(nm.float64)
             if key.endswith(':ref'):
                 key = 'mat_id'
             out[key] = Struct(name=key, mode='cell', data=aux)
 
         return out
+        # Use only the cells of the highest dimension.
+        tdim = max([c.dim for c in m.cells])
 
 
 class ComsolMeshIO(MeshIO):
-- 
2.43.0


From 741eeb590580c9b16655e8942d2796acdb0feb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 038/107] fix: do not truncate point data with more than three
 components

---
 sfepy/discrete/fem/meshio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 1967c4e..438bf9f 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -566,7 +566,7 @@ class MeshioLibIO(MeshIO):
         dim = self._get_dimension(m.points, squeeze=self.squeeze)
 
         def _fix_shape(data):
-            if data.ndim == 2:
+            if (data.ndim == 2) and (data.shape[1] == 3):
                 data = data[:, :dim]
 
             elif data.ndim == 3:
-- 
2.43.0


From b459230f1f9408ce976eac1778c4c576e3e525aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 039/107] fix: write block-local cell sets for mixed meshes

---
 sfepy/discrete/fem/meshio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 438bf9f..6f2c57f 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -531,7 +531,7 @@ class MeshioLibIO(MeshIO):
 
             for k in cgrps:
                 idxs = nm.where(cmesh.cell_groups[cidxs] == k)[0]
-                cell_sets[str(k)].append(cidxs[idxs])
+                cell_sets[str(k)].append(idxs)
 
         if self.file_format in ['vtk', 'vtk-ascii', 'vtk-binary', 'vtu']:
             point_sets, cell_sets = None, None
-- 
2.43.0


From ae6132355ba14b4aee2fcd9cbde057a38444a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 040/107] fix: write zero cell data in cells of a lower
 dimension

---
 sfepy/discrete/fem/meshio.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 6f2c57f..adca98b 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -527,7 +527,12 @@ class MeshioLibIO(MeshIO):
 
             cgroups.append(cmesh.cell_groups[cidxs])
             for k in cell_data_keys:
-                cell_data[k].append(out[k].data[cidxs, 0, :, 0])
+                if cmesh is mesh.cmesh:
+                    cell_data[k].append(out[k].data[cidxs, 0, :, 0])
+                else: # No data in cells of a lower dimension.
+                    cell_data[k].append(nm.zeros((len(cidxs),
+                                                  out[k].data.shape[2]),
+                                                 dtype=out[k].data.dtype))
 
             for k in cgrps:
                 idxs = nm.where(cmesh.cell_groups[cidxs] == k)[0]
-- 
2.43.0


From a58e48fffb19bb869b84ac277c5bbdc1317744ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 041/107] fix: keep material ids aligned with cells when facets
 are omitted

---
 sfepy/discrete/fem/meshio.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index adca98b..c889bcd 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -447,9 +447,11 @@ class MeshioLibIO(MeshIO):
 
                 continue
 
-            if (not omit_facets) or (c.dim == dim):
-                cells.append(c.data)
-                cell_types.append(self.cell_types[(c.type, dim)])
+            if omit_facets and (c.dim != dim):
+                continue
+
+            cells.append(c.data)
+            cell_types.append(self.cell_types[(c.type, dim)])
 
             if cgdata is not None:
                 cgroups.append(nm.asarray(cgdata[ic]).flatten())
@@ -586,6 +588,8 @@ class MeshioLibIO(MeshIO):
                 key = 'node_groups'
             out[key] = Struct(name=key, mode='vertex', data=aux)
 
+        # Use only the cells of the highest dimension.
+        tdim = max([c.dim for c in m.cells])
         for key, data in m.cell_data.items():
             data = nm.concatenate([dd for ii, dd in enumerate(data)
                                    if m.cells[ii].dim == tdim])
@@ -595,8 +599,6 @@ class MeshioLibIO(MeshIO):
             out[key] = Struct(name=key, mode='cell', data=aux)
 
         return out
-        # Use only the cells of the highest dimension.
-        tdim = max([c.dim for c in m.cells])
 
 
 class ComsolMeshIO(MeshIO):
@@ -1025,9 +1027,11 @@ class HDF5MeshIO(MeshIO):
         topology_table = {
             '2_2': 'Line',
             '3_2': 'Line',
+            '1_2': 'Line',
             '2_3': 'Triangle',
             '2_4': 'Quadrilateral',
             '3_4': 'Tetrahedron',
+            '3_6': 'Wedge',
             '3_8': 'Hexahedron',
         }
 
@@ -1036,11 +1040,9 @@ class HDF5MeshIO(MeshIO):
             for k, v in kwargs['extra_data'].items():
                 d = et.SubElement(et_root, 'Information', attrib={'Name': k})
                 d.text = str(v)
-            '1_2': 'Line',
 
         et_domain = et.SubElement(et_root, 'Domain')
 
-            '3_6': 'Wedge',
         with HDF5ContextManager(filename, mode='r') as fd:
             root = fd.root
             mesh = root.mesh
@@ -1097,6 +1099,9 @@ class HDF5MeshIO(MeshIO):
                 4: (9, [0, 1, 3, 4]),
             }
 
+            if data.ndim == 4: # Cell data.
+                return expand_data_3d(data[:, 0, :, 0])[:, None, :, None]
+
             n, dim = data.shape
             if dim in expand_tab:
                 dim3, order = expand_tab[dim]
@@ -1110,9 +1115,6 @@ class HDF5MeshIO(MeshIO):
 
         if pt is None:
             raise ValueError('pytables not imported!')
-            if data.ndim == 4: # Cell data.
-                return expand_data_3d(data[:, 0, :, 0])[:, None, :, None]
-
 
         step = get_default_attr(ts, 'step', 0)
         if (step == 0) or not op.exists(filename):
@@ -1151,6 +1153,7 @@ class HDF5MeshIO(MeshIO):
 
             step_group_name = 'step%d' % step
             if step_group_name in fd.root:
+                fd.close()
                 raise ValueError('step %d is already saved in "%s" file!'
                                  ' Possible help: remove the old file or'
                                  ' start saving from the initial time.'
@@ -1167,7 +1170,6 @@ class HDF5MeshIO(MeshIO):
                 if xdmf and mesh.coors.shape[1] == 2:
                     data = expand_data_3d(val.data)
                 else:
-                fd.close()
                     data = val.data
 
                 group_name = '__' + key.translate(self._tr)
-- 
2.43.0


From 35e1e1052ac7206bd1bf1c169625a3e77d63378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 042/107] fix: high full_order quadratures of tensor product
 geometries

---
 sfepy/discrete/quadratures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/quadratures.py b/sfepy/discrete/quadratures.py
index 14de4f2..e7ec96d 100644
--- a/sfepy/discrete/quadratures.py
+++ b/sfepy/discrete/quadratures.py
@@ -152,9 +152,9 @@ class QuadraturePoints(Struct):
             qp.order = order
 
         else:
+            order1d = order
+            dim = int(geometry[0])
             if not full_order:
-                order1d = order
-                dim = int(geometry[0])
                 order = dim * order1d
 
             if order <= max_orders[geometry]:
-- 
2.43.0


From 276324ed65e45c6ec65200e024d8a6d522728ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 043/107] fix: symmetric quadratures given by separate
 coordinates and weights

---
 sfepy/discrete/quadratures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/quadratures.py b/sfepy/discrete/quadratures.py
index e7ec96d..bad616a 100644
--- a/sfepy/discrete/quadratures.py
+++ b/sfepy/discrete/quadratures.py
@@ -211,7 +211,7 @@ class QuadraturePoints(Struct):
         self.volume = nm.prod(bbox.sum(axis=1)) * tp_fix
 
         if symmetric:
-            isym = 0 if data[0, 0] == 0 else None
+            isym = 0 if self.coors[0, 0] == 0 else None
 
         if bounds is not None:
             # Transform from given bounds to self.bounds.
-- 
2.43.0


From 356b7e8a3d7a0ec041ca0afdae90b229ed4f50b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 044/107] fix: number of points of symmetric quadratures

---
 sfepy/discrete/quadratures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/discrete/quadratures.py b/sfepy/discrete/quadratures.py
index bad616a..a400ada 100644
--- a/sfepy/discrete/quadratures.py
+++ b/sfepy/discrete/quadratures.py
@@ -235,6 +235,7 @@ class QuadraturePoints(Struct):
 
             self.coors = nm.r_[2 * origin - self.coors[:isym:-1], self.coors]
             self.weights = nm.r_[self.weights[:isym:-1], self.weights]
+            self.n_point = self.coors.shape[0]
 
 _QP = QuadraturePoints
 quadrature_tables = {
-- 
2.43.0


From 12b34f651c424772033e2b66d4e030ba425022da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:16 +0000
Subject: [PATCH 045/107] fix: gradients of Bernstein simplex basis in element
 facets

---
 sfepy/discrete/fem/poly_spaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/fem/poly_spaces.py b/sfepy/discrete/fem/poly_spaces.py
index f3b7a52..2b42bc1 100644
--- a/sfepy/discrete/fem/poly_spaces.py
+++ b/sfepy/discrete/fem/poly_spaces.py
@@ -1159,6 +1159,8 @@ class BernsteinSimplexPolySpace(FEPolySpace):
                     dval = 0.0
                     for ib in range(dim + 1):
                         ex = node[ib]
+                        if ex == 0: continue # Avoid 0 * 0**(-1).
+
                         val = coef
                         for im in range(dim + 1):
                             if ib == im:
-- 
2.43.0


From 22004a8bbd728415b78d21f8642daa6560a6f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:16 +0000
Subject: [PATCH 046/107] fix: second derivatives of the simplex basis with
 bubbles

---
 sfepy/discrete/fem/poly_spaces.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sfepy/discrete/fem/poly_spaces.py b/sfepy/discrete/fem/poly_spaces.py
index 2b42bc1..e4ad715 100644
--- a/sfepy/discrete/fem/poly_spaces.py
+++ b/sfepy/discrete/fem/poly_spaces.py
@@ -489,6 +489,21 @@ class LagrangeSimplexBPolySpace(LagrangeSimplexPolySpace):
 
         return ctx
 
+    def _eval_hessian(self, coors):
+        """
+        Evaluate the second derivatives of the basis.
+        """
+        ps = LagrangeSimplexPolySpace(self.name, self.geometry, self.order,
+                                      init_context=False)
+        bfgg = ps._eval_hessian(coors)
+
+        # The bubble has its own order, see eval_basis_lagrange() in C.
+        ps.nodes, ps.n_nod, ps.order = self.bnode, 1, self.bnode.sum()
+        bubble = ps._eval_hessian(coors)
+
+        return nm.concatenate((bfgg - bubble / (self.n_nod - 1), bubble),
+                              axis=-1)
+
 class LagrangeTensorProductPolySpace(LagrangePolySpace):
     """Lagrange polynomial space on a tensor product domain."""
     name = 'lagrange_tensor_product'
-- 
2.43.0


From 47b5e0bef98b5136103e6302cecef6b07179e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 047/107] fix: raise an error and clear the error flag when a
 Lagrange basis evaluation fails

---
 sfepy/discrete/fem/extmods/bases.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/extmods/bases.pyx b/sfepy/discrete/fem/extmods/bases.pyx
index 2b157e2..bab2afa 100644
--- a/sfepy/discrete/fem/extmods/bases.pyx
+++ b/sfepy/discrete/fem/extmods/bases.pyx
@@ -16,6 +16,7 @@ from sfepy.discrete.common.extmods.types cimport int32, float64, complex128
 cdef extern from 'common.h':
     void *pyalloc(size_t size)
     void pyfree(void *pp)
+    void errclear()
 
 cdef extern from 'lagrange.h':
     ctypedef struct LagrangeContext:
@@ -235,6 +236,11 @@ cdef class CLagrangeContext:
         _f.array2fmfield3(_out, out)
         _f.array2fmfield2(_coors, coors)
 
-        self.ctx.eval_basis(_out, _coors, diff, ctx)
+        if self.ctx.eval_basis(_out, _coors, diff, ctx):
+            # Clear the global error flag, so that it does not influence the
+            # subsequent evaluations.
+            errclear()
+            raise RuntimeError('evaluation of the Lagrange basis failed'
+                               ' (see above)!')
 
         return out
-- 
2.43.0


From f53b09b0abf084b00604d77bbb97397189e87077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 048/107] fix: tangents of hyperelastic terms used the stress
 of a previously evaluated state

---
 sfepy/terms/terms_hyperelastic_base.py | 13 ++-----------
 sfepy/terms/terms_hyperelastic_tl.py   |  8 ++------
 sfepy/terms/terms_hyperelastic_ul.py   |  8 ++------
 3 files changed, 6 insertions(+), 23 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_base.py b/sfepy/terms/terms_hyperelastic_base.py
index 2a9df7a..b2c6551 100644
--- a/sfepy/terms/terms_hyperelastic_base.py
+++ b/sfepy/terms/terms_hyperelastic_base.py
@@ -153,11 +153,6 @@ class HyperElasticBase(Term):
     def function(out, fun, *args):
         return fun(out, *args)
 
-    def __init__(self, *args, **kwargs):
-        Term.__init__(self, *args, **kwargs)
-
-        self.stress_cache = None
-
     def compute_stress(self, mat, family_data, **kwargs):
         out = nm.empty_like(family_data.green_strain)
 
@@ -193,18 +188,14 @@ class HyperElasticBase(Term):
                                   self.arg_derivatives[name])
 
         if mode == 'weak':
+            stress = self.compute_stress(mat, fd, **kwargs)
+
             if diff_var is None:
-                stress = self.compute_stress(mat, fd, **kwargs)
-                self.stress_cache = stress
                 tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                 fmode = 0
 
             else:
-                stress = self.stress_cache
-                if stress is None:
-                    stress = self.compute_stress(mat, fd, **kwargs)
-
                 tan_mod = self.compute_tan_mod(mat, fd, **kwargs)
                 fmode = 1
 
diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 40371db..3c518ce 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -644,18 +644,14 @@ class BulkPressureTLTerm(HyperElasticTLBase):
 
         if mode == 'weak':
             if diff_var != state_p.name:
+                stress = self.compute_data(fd, 0, **kwargs)
+
                 if diff_var is None:
-                    stress = self.compute_data(fd, 0, **kwargs)
-                    self.stress_cache = stress
                     tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                     fmode = 0
 
                 else:
-                    stress = self.stress_cache
-                    if stress is None:
-                        stress = self.compute_data(fd, 0, **kwargs)
-
                     tan_mod = self.compute_data(fd, 1, **kwargs)
                     fmode = 1
 
diff --git a/sfepy/terms/terms_hyperelastic_ul.py b/sfepy/terms/terms_hyperelastic_ul.py
index dbec72d..afb9fa5 100644
--- a/sfepy/terms/terms_hyperelastic_ul.py
+++ b/sfepy/terms/terms_hyperelastic_ul.py
@@ -151,18 +151,14 @@ class BulkPressureULTerm(HyperElasticULBase):
 
         if mode == 'weak':
             if diff_var != state_p.name:
+                stress = self.compute_data(fd, 0, **kwargs)
+
                 if diff_var is None:
-                    stress = self.compute_data(fd, 0, **kwargs)
-                    self.stress_cache = stress
                     tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                     fmode = 0
 
                 else:
-                    stress = self.stress_cache
-                    if stress is None:
-                        stress = self.compute_data(fd, 0, **kwargs)
-
                     tan_mod = self.compute_data(fd, 1, **kwargs)
                     fmode = 1
 
-- 
2.43.0


From c39f3e5eaef899aae235b34712b68213a36a86a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 049/107] fix: shear components in the stress and tangent of
 dw_tl_he_svk

---
 sfepy/terms/terms_hyperelastic_tl.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 3c518ce..d39f2c2 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -504,17 +504,14 @@ class SaintVenantKirchhoffTLTerm(HyperElasticTLBase):
 
     def stress_function(self, out, mat, *fargs, **kwargs):
         sym_e = fargs[0]
-        mat = HyperElasticBase.tile_mat(mat, sym_e.shape[0])
+        mat = HyperElasticBase.tile_mat(mat, sym_e.shape[0]).copy()
         dim = self.region.dim
         mat[:, :, :, dim:] *= 2 # fix shear components
         out[:] = nm.einsum('ijkl,ijl...->ijk...', mat, sym_e)
         return out
 
     def tan_mod_function(self, out, mat, *fargs, **kwargs):
-        mat = HyperElasticBase.tile_mat(mat, fargs[0].shape[0])
-        dim = self.region.dim
-        mat[:, :, dim:, :] *= 2 # fix shear components
-        out[:] = mat
+        out[:] = HyperElasticBase.tile_mat(mat, fargs[0].shape[0])
         return out
 
 class MooneyRivlinTLTerm(HyperElasticTLBase):
-- 
2.43.0


From 3e48ca90467810edb8dad5a84e19b450779001d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 050/107] fix: facet mappings in 3D were evaluated in
 transposed quadrature points

---
 sfepy/discrete/fem/fields_base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index afbd460..13a4387 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1343,7 +1343,12 @@ class FEField(Field):
                     mapping.set_basis_indices(indxs)
                     weights = nm.ascontiguousarray(qp.weights[ffcidxs][fc_map])
                     bf = nm.ascontiguousarray(bf[ffcidxs][fc_map])
-                    out = mapping.get_mapping(qp.vals[ffcidxs], weights, bf,
+                    # The reversed facet nodes above swap the facet axes.
+                    gqp = qp.vals[ffcidxs].copy()
+                    for ikey, fcax in fcaxes.items():
+                        gqp[ikey][:, fcax] = gqp[ikey][:, fcax[::-1]]
+
+                    out = mapping.get_mapping(gqp, weights, bf,
                                               extra=(None, None, None),
                                               is_face=True,
                                               fc_bf_map=(fc_map, fcaxes))
@@ -1369,7 +1374,12 @@ class FEField(Field):
                     else:
                         se_bf_bg, se_ebf_bg, se_conn = None, None, None
 
-                    out = mapping.get_mapping(qp.vals[0], qp.weights, bf,
+                    gqp = qp.vals[0]
+                    if gqp.shape[1] == 3:
+                        # The reversed facet nodes above swap the facet axes.
+                        gqp = nm.ascontiguousarray(gqp[:, [1, 0, 2]])
+
+                    out = mapping.get_mapping(gqp, qp.weights, bf,
                         extra=(se_conn, se_bf_bg, se_ebf_bg), is_face=True)
 
             else:
-- 
2.43.0


From 5bc2db267f1755bf5e8e95cb49b090f701b5203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 051/107] fix: order of DOFs in dw_vm_dot_s

---
 sfepy/terms/extmods/terms_op.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/extmods/terms_op.c b/sfepy/terms/extmods/terms_op.c
index 64252d2..4e3474b 100644
--- a/sfepy/terms/extmods/terms_op.c
+++ b/sfepy/terms/extmods/terms_op.c
@@ -73,15 +73,15 @@ int32 actBfT(FMField *out, FMField *bf, FMField *A)
     for (iqp = 0; iqp < bf->nLev; iqp++) {
       pbf = FMF_PtrLevel(bf, iqp);
       pout = FMF_PtrLevel(out, iqp);
-      for (ii = 0; ii < nEP; ii++) {
-        pA = FMF_PtrLevel(A, iqp);
-        for (ir = 0; ir < dim; ir++) {
+      pA = FMF_PtrLevel(A, iqp);
+      for (ir = 0; ir < dim; ir++) {
+        for (ii = 0; ii < nEP; ii++) {
           for (ic = 0; ic < A->nCol; ic++) {
             pout[ic] = pbf[ii] * pA[ic];
           }
           pout += out->nCol;
-          pA += A->nCol;
         }
+        pA += A->nCol;
       }
     } // for (iqp)
   } // for (iel)
-- 
2.43.0


From 95fd0e384f910f18fa7ab9aec74ba23ffaefe469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 052/107] fix: Jacobians of the first element only used in
 dw_convect_v_grad_s

---
 sfepy/terms/extmods/terms_diffusion.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/terms/extmods/terms_diffusion.c b/sfepy/terms/extmods/terms_diffusion.c
index ea59c5a..98f3a81 100644
--- a/sfepy/terms/extmods/terms_diffusion.c
+++ b/sfepy/terms/extmods/terms_diffusion.c
@@ -653,6 +653,7 @@ int32 dw_convect_v_grad_s( FMField *out, FMField *val_v, FMField *grad_s,
 
   for (ii = 0; ii < out->nCell; ii++) {
     FMF_SetCell( out, ii );
+    FMF_SetCell( vvg->det, ii );
     FMF_SetCellX1( svg->bf, ii );
 
     if (isDiff == 0) {
-- 
2.43.0


From 781717218329925a3e5264222dd1a7b2cedffbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 053/107] fix: coefficient of the first point only used in
 dw_electric_source

---
 sfepy/terms/extmods/terms_electric.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/extmods/terms_electric.c b/sfepy/terms/extmods/terms_electric.c
index 36b7c7d..6c02177 100644
--- a/sfepy/terms/extmods/terms_electric.c
+++ b/sfepy/terms/extmods/terms_electric.c
@@ -25,9 +25,9 @@ int32 dw_electric_source( FMField *out, FMField *grad, FMField *coef,
     FMF_SetCellX1( vg->bf, ii );
 
     fmf_mulATB_nn( gp2, grad, grad );
+    fmf_mul( gp2, coef->val );
     fmf_mulATB_nn( bftgp2, vg->bf, gp2 );
     fmf_sumLevelsMulF( out, bftgp2, vg->det->val );
-    fmf_mulC( out, coef->val[0] );
 
     ERR_CheckGo( ret );
   }
-- 
2.43.0


From 84a84f21e3dc5fd214721393a5e33824232ad214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 054/107] fix: gradients of a scalar variable with another
 order in dw_piezo_coupling

---
 sfepy/terms/extmods/terms.pyx     | 5 +++--
 sfepy/terms/extmods/terms_piezo.c | 7 ++++---
 sfepy/terms/extmods/terms_piezo.h | 2 +-
 sfepy/terms/terms_piezo.py        | 4 +++-
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/sfepy/terms/extmods/terms.pyx b/sfepy/terms/extmods/terms.pyx
index fe913ab..49e47a2 100644
--- a/sfepy/terms/extmods/terms.pyx
+++ b/sfepy/terms/extmods/terms.pyx
@@ -383,7 +383,7 @@ cdef extern from 'terms.h':
     cdef int32 _dw_piezo_coupling \
          'dw_piezo_coupling'(FMField *out, FMField *strain,
                              FMField *charge_grad,
-                             FMField *mtxG, Mapping *vg,
+                             FMField *mtxG, Mapping *vg, Mapping *svg,
                              int32 mode)
 
     cdef int32 _d_piezo_coupling \
@@ -1800,6 +1800,7 @@ def dw_piezo_coupling(np.ndarray out not None,
                       np.ndarray charge_grad not None,
                       np.ndarray mtx_g not None,
                       CMapping cmap not None,
+                      CMapping scmap not None,
                       int32 mode):
     cdef int32 ret
     cdef FMField[1] _out, _strain, _charge_grad, _mtx_g
@@ -1810,7 +1811,7 @@ def dw_piezo_coupling(np.ndarray out not None,
     array2fmfield4(_mtx_g, mtx_g)
 
     ret = _dw_piezo_coupling(_out, _strain, _charge_grad, _mtx_g,
-                             cmap.geo, mode)
+                             cmap.geo, scmap.geo, mode)
     return ret
 
 def d_piezo_coupling(np.ndarray out not None,
diff --git a/sfepy/terms/extmods/terms_piezo.c b/sfepy/terms/extmods/terms_piezo.c
index 78b1052..08f872a 100644
--- a/sfepy/terms/extmods/terms_piezo.c
+++ b/sfepy/terms/extmods/terms_piezo.c
@@ -5,7 +5,7 @@
 #undef __FUNC__
 #define __FUNC__ "dw_piezo_coupling"
 int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
-			 FMField *mtxG, Mapping *vg,
+			 FMField *mtxG, Mapping *vg, Mapping *svg,
 			 int32 mode )
 {
   int32 ii, nEPU, nEPP, dim, sym, nQP, ret = RET_OK;
@@ -37,6 +37,7 @@ int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
     FMF_SetCell( out, ii );
     FMF_SetCellX1( mtxG, ii );
     FMF_SetCell( vg->bfGM, ii );
+    FMF_SetCell( svg->bfGM, ii );
     FMF_SetCell( vg->det, ii );
 
     if (mode == 0) { // vector - grad
@@ -50,12 +51,12 @@ int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
       FMF_SetCell( strain, ii );
 
       fmf_mulAB_nn( ge, mtxG, strain );
-      fmf_mulATB_nn( gctge, vg->bfGM, ge );
+      fmf_mulATB_nn( gctge, svg->bfGM, ge );
       fmf_sumLevelsMulF( out, gctge, vg->det->val );
 
     } else { // matrix - div, grad
       form_sdcc_actOpG_RM3( gg, mtxG, vg->bfGM );
-      fmf_mulATB_nn( gctgg, vg->bfGM, gg );
+      fmf_mulATB_nn( gctgg, svg->bfGM, gg );
       if (mode == 1) { // matrix - grad
 	fmf_sumLevelsTMulF( out, gctgg, vg->det->val );
       } else { // matrix - div
diff --git a/sfepy/terms/extmods/terms_piezo.h b/sfepy/terms/extmods/terms_piezo.h
index 8cc8596..86f1b4c 100644
--- a/sfepy/terms/extmods/terms_piezo.h
+++ b/sfepy/terms/extmods/terms_piezo.h
@@ -12,7 +12,7 @@ BEGIN_C_DECLS
 #include "refmaps.h"
 
 int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
-			 FMField *mtxG, Mapping *vg,
+			 FMField *mtxG, Mapping *vg, Mapping *svg,
 			 int32 mode );
 
 int32 d_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
diff --git a/sfepy/terms/terms_piezo.py b/sfepy/terms/terms_piezo.py
index 0adf5d8..f87f890 100644
--- a/sfepy/terms/terms_piezo.py
+++ b/sfepy/terms/terms_piezo.py
@@ -62,7 +62,9 @@ class PiezoCouplingTerm(Term):
                 strain, grad = val_qp, aux
                 fmode += 2
 
-            return strain, grad, mat, vvg, fmode
+            svg, _ = self.get_mapping(svar)
+
+            return strain, grad, mat, vvg, svg, fmode
 
         elif mode == 'eval':
             strain = self.get(vvar, 'cauchy_strain')
-- 
2.43.0


From 66bbb77b4993e602e073e1c3c7d1f69b7d825734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 055/107] fix: order of arguments in evaluation of
 dw_v_dot_grad_s

---
 sfepy/terms/terms_dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_dot.py b/sfepy/terms/terms_dot.py
index 1d23b3e..3e6716d 100644
--- a/sfepy/terms/terms_dot.py
+++ b/sfepy/terms/terms_dot.py
@@ -342,7 +342,7 @@ class VectorDotGradScalarTerm(Term):
             grad = self.get(svar, 'grad')
             val = self.get(vvar, 'val')
 
-            return coef, grad, val, vvg
+            return coef, val, grad, vvg
 
         else:
             raise ValueError('unsupported evaluation mode in %s! (%s)'
-- 
2.43.0


From 575f57c3ce1d7d9d57349df236fc106b669b1f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 056/107] fix: ev_integrate modified cached values of variables

---
 sfepy/terms/terms_basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_basic.py b/sfepy/terms/terms_basic.py
index f4c7f0b..cb295ea 100644
--- a/sfepy/terms/terms_basic.py
+++ b/sfepy/terms/terms_basic.py
@@ -85,7 +85,7 @@ class IntegrateTerm(Term):
 
         val_qp = self.get(parameter, 'val')
         if material is not None:
-            val_qp *= material
+            val_qp = val_qp * material
 
         fmode = {'eval' : 0, 'el_avg' : 1, 'qp' : 2}.get(mode, 1)
         if term_mode == 'flux':
-- 
2.43.0


From 44a0ffa07a1f8af794d29a4ee547e1906b996da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 057/107] fix: zero 1D strain operators in multi-linear terms

---
 sfepy/terms/terms_multilinear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 43732bd..6d52966 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -303,6 +303,9 @@ class ExpressionBuilder(Struct):
                 psg[0, [0,1], [0,2]] = 1
                 psg[1, [0,1], [2,1]] = 1
 
+            else:
+                psg[0, 0, 0] = 1
+
             self.cache[key] = psg
 
         return psg
@@ -321,6 +324,9 @@ class ExpressionBuilder(Struct):
                 pvg[0, [0, 1], [0, 1]] = 1
                 pvg[1, [0, 1], [2, 3]] = 1
 
+            else:
+                pvg[0, 0, 0] = 1
+
             self.cache[key] = pvg
 
         return pvg
-- 
2.43.0


From f18877476dc2976d0ec5aaf8e1e4e6f62bccba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 058/107] fix: squares of 3D symmetric tensors used another
 order of components

---
 sfepy/discrete/common/extmods/geommech.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/common/extmods/geommech.c b/sfepy/discrete/common/extmods/geommech.c
index 8f8c2b1..723fad6 100644
--- a/sfepy/discrete/common/extmods/geommech.c
+++ b/sfepy/discrete/common/extmods/geommech.c
@@ -595,12 +595,12 @@ int32 geme_mulT2S_AA( FMField *R, FMField *A )
       pr[2] = pa[2]*pa[0] + pa[1]*pa[2];
       break;
     case 6:
-      pr[0] = pa[0]*pa[0] + pa[5]*pa[5] + pa[4]*pa[4];
-      pr[1] = pa[5]*pa[5] + pa[1]*pa[1] + pa[3]*pa[3];
-      pr[2] = pa[4]*pa[4] + pa[3]*pa[3] + pa[2]*pa[2];
-      pr[3] = pa[4]*pa[5] + pa[1]*pa[3] + pa[2]*pa[3];
-      pr[4] = pa[0]*pa[4] + pa[5]*pa[3] + pa[4]*pa[2];
-      pr[5] = pa[0]*pa[5] + pa[5]*pa[1] + pa[4]*pa[3];
+      pr[0] = pa[0]*pa[0] + pa[3]*pa[3] + pa[4]*pa[4];
+      pr[1] = pa[3]*pa[3] + pa[1]*pa[1] + pa[5]*pa[5];
+      pr[2] = pa[4]*pa[4] + pa[5]*pa[5] + pa[2]*pa[2];
+      pr[3] = pa[0]*pa[3] + pa[3]*pa[1] + pa[4]*pa[5];
+      pr[4] = pa[0]*pa[4] + pa[3]*pa[5] + pa[4]*pa[2];
+      pr[5] = pa[3]*pa[4] + pa[1]*pa[5] + pa[5]*pa[2];
       break;
     default:
       errput( ErrHead "ERR_Switch\n" );
-- 
2.43.0


From 846203e3c0fef10767ebfd85de4c2d9e5e287f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 059/107] fix: tangent modulus of dw_ul_he_mooney_rivlin

---
 sfepy/terms/extmods/terms_hyperelastic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfepy/terms/extmods/terms_hyperelastic.c b/sfepy/terms/extmods/terms_hyperelastic.c
index e69edc0..fae265c 100644
--- a/sfepy/terms/extmods/terms_hyperelastic.c
+++ b/sfepy/terms/extmods/terms_hyperelastic.c
@@ -1307,12 +1307,12 @@ int32 dq_ul_he_tan_mod_mooney_rivlin( FMField *out, FMField *mat,
     for (iqp = 0; iqp < nQP; iqp++) {
       detF23 = exp( -2.0/3.0 * log( pdetF[iqp] ) );
       detF43 = detF23 * detF23;
-      F1 = 16.0/9.0 * pkappa[iqp] * detF43 * pin2B[iqp];
-      F2 = -8.0/3.0 * pkappa[iqp] * detF43 * ptrB[iqp];
-      F3 = 4.0/3.0 * pkappa[iqp] * detF43 * pin2B[iqp];
-      F4 = 4.0 * pkappa[iqp] * detF43;
-      F5 = -2.0 * pkappa[iqp] * detF43;
-      F6 = 8.0/3.0 * pkappa[iqp] * detF43;
+      F1 = 8.0/9.0 * pkappa[iqp] * detF43 * pin2B[iqp];
+      F2 = -4.0/3.0 * pkappa[iqp] * detF43 * ptrB[iqp];
+      F3 = 2.0/3.0 * pkappa[iqp] * detF43 * pin2B[iqp];
+      F4 = 2.0 * pkappa[iqp] * detF43;
+      F5 = -1.0 * pkappa[iqp] * detF43;
+      F6 = 4.0/3.0 * pkappa[iqp] * detF43;
       for (ir = 0; ir < sym; ir++) {
         for (ic = 0; ic < sym; ic++) {
           pd[sym*ir+ic]
-- 
2.43.0


From 1cc7a6fcf25f80e8f6c59d405ca3cfa15578c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 060/107] fix: matrices of terms with complex states

---
 sfepy/terms/terms_adj_navier_stokes.py | 18 ++++++++++++++----
 sfepy/terms/terms_constraints.py       |  6 +++++-
 sfepy/terms/terms_navier_stokes.py     |  4 +++-
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/sfepy/terms/terms_adj_navier_stokes.py b/sfepy/terms/terms_adj_navier_stokes.py
index 44b0623..c17fb25 100644
--- a/sfepy/terms/terms_adj_navier_stokes.py
+++ b/sfepy/terms/terms_adj_navier_stokes.py
@@ -71,10 +71,15 @@ class AdjConvect1Term(Term):
                   mode=None, term_mode=None, diff_var=None, **kwargs):
         vg, _ = self.get_mapping(state)
 
-        val_w = self.get(state, 'val')
         grad_u = self.get(parameter, 'grad') # No transposition here!
 
-        fmode = diff_var is not None
+        if diff_var is None:
+            val_w = self.get(state, 'val')
+            fmode = 0
+
+        else:
+            val_w = nm.array([0], ndmin=4, dtype=nm.float64)
+            fmode = 1
 
         return val_w, grad_u, vg, fmode
 
@@ -102,10 +107,15 @@ class AdjConvect2Term(Term):
                   mode=None, term_mode=None, diff_var=None, **kwargs):
         vg, _ = self.get_mapping(state)
 
-        val_w = self.get(state, 'val')
         val_u = self.get(parameter, 'val')
 
-        fmode = diff_var is not None
+        if diff_var is None:
+            val_w = self.get(state, 'val')
+            fmode = 0
+
+        else:
+            val_w = nm.array([0], ndmin=4, dtype=nm.float64)
+            fmode = 1
 
         return val_w, val_u, vg, fmode
 
diff --git a/sfepy/terms/terms_constraints.py b/sfepy/terms/terms_constraints.py
index 80770f9..0a6e3ab 100644
--- a/sfepy/terms/terms_constraints.py
+++ b/sfepy/terms/terms_constraints.py
@@ -85,7 +85,11 @@ class NonPenetrationTerm(Term):
         else:
             qp_var = vvar
 
-        val_qp = self.get(qp_var, 'val')
+        if diff_var is None:
+            val_qp = self.get(qp_var, 'val')
+
+        else:
+            val_qp = nm.array([0], ndmin=4, dtype=nm.float64)
 
         vsg, _ = self.get_mapping(vvar)
         ssg, _ = self.get_mapping(svar)
diff --git a/sfepy/terms/terms_navier_stokes.py b/sfepy/terms/terms_navier_stokes.py
index 1e47dc7..02ca9ba 100644
--- a/sfepy/terms/terms_navier_stokes.py
+++ b/sfepy/terms/terms_navier_stokes.py
@@ -678,12 +678,14 @@ class PSPGCStabilizationTerm(Term):
         conn = state.field.get_econn(self.act_integration, self.region)
 
         if diff_var is None:
+            vec = state()
             fmode = 0
 
         else:
+            vec = nm.array([0], dtype=nm.float64)
             fmode = 1
 
-        return val_qp, state(), tau, svg, vvg, conn, fmode
+        return val_qp, vec, tau, svg, vvg, conn, fmode
 
 class SUPGPStabilizationTerm(Term):
     r"""
-- 
2.43.0


From dbd292905dcdb4df4ee7b456135d46e924d867d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 061/107] fix: transposed traction tensor in evaluation of
 dw_surface_ltr

---
 sfepy/terms/terms_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_surface.py b/sfepy/terms/terms_surface.py
index 1135a14..19dad54 100644
--- a/sfepy/terms/terms_surface.py
+++ b/sfepy/terms/terms_surface.py
@@ -58,7 +58,7 @@ class LinearTractionTerm(Term):
             aux = dot_sequences(val, traction, 'ATB')
 
         elif tdim == dim and tdim2 == dim: # Traction tensor - nonsymmetric
-            trn = dot_sequences(traction, sg.normal, 'ATB')
+            trn = dot_sequences(traction, sg.normal, 'AB')
             aux = dot_sequences(val, trn, 'ATB')
 
         elif tdim == sym: # Traction tensor
-- 
2.43.0


From fe48f4ce24ba8d045d45c281a124ee1aaae1c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:16 +0000
Subject: [PATCH 062/107] fix: expressions of multi-linear terms were reused in
 other evaluation modes

---
 sfepy/terms/terms_multilinear.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 6d52966..fb4869c 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -835,13 +835,16 @@ class ETermBase(Term):
         timer = Timer('')
         timer.start()
 
-        einfo = self.einfos.setdefault(diff_var, Struct(
-            eargs=None,
-            ebuilder=None,
-            paths=None,
-            path_infos=None,
-            eval_einsum=None,
-        ))
+        einfo = self.einfos.get(diff_var)
+        if (einfo is None) or (einfo.mode != mode):
+            einfo = self.einfos[diff_var] = Struct(
+                mode=mode,
+                eargs=None,
+                ebuilder=None,
+                paths=None,
+                path_infos=None,
+                eval_einsum=None,
+            )
 
         if einfo.eval_einsum is not None:
             if self.verbosity:
-- 
2.43.0


From 41613446646a43e70514c042a7f884998f3ae3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 063/107] fix: points in centroids of cells with planar facets
 were not found by the convex search

---
 sfepy/discrete/common/extmods/refcoors.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/extmods/refcoors.c b/sfepy/discrete/common/extmods/refcoors.c
index 47373ba..9e9939e 100644
--- a/sfepy/discrete/common/extmods/refcoors.c
+++ b/sfepy/discrete/common/extmods/refcoors.c
@@ -227,7 +227,7 @@ int32 refc_find_ref_coors_convex(FMField *ref_coors,
           }
         }
 
-        if (tmin >= (1.0 - qp_eps)) {
+        if ((tmin >= (1.0 - qp_eps)) || hexa_reverse) {
           _get_cell_coors(e_coors, cell_vertices, mesh_coors, nc,
                           ctx->e_coors_max->val);
           /* fmf_print(e_coors, stdout, 0); */
@@ -237,8 +237,11 @@ int32 refc_find_ref_coors_convex(FMField *ref_coors,
           d_min = Min(dist, d_min);
           if (xi_ok && (dist < qp_eps)) {
             ok = 1;
+            break;
+          }
+          if (tmin >= (1.0 - qp_eps)) {
+            break;
           }
-          break;
         }
 
       } else { // Hexahedron -> non-planar facet in general.
-- 
2.43.0


From 45f0bc5ecda18d2c9b78940e1476eaba55f824d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 064/107] fix: reference coordinates of the last searched cell
 returned instead of those of the closest cell

---
 sfepy/discrete/common/extmods/refcoors.c | 34 ++++++++++++------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/sfepy/discrete/common/extmods/refcoors.c b/sfepy/discrete/common/extmods/refcoors.c
index 9e9939e..115d275 100644
--- a/sfepy/discrete/common/extmods/refcoors.c
+++ b/sfepy/discrete/common/extmods/refcoors.c
@@ -393,12 +393,12 @@ int32 refc_find_ref_coors(FMField *ref_coors,
 {
   BasisContext *ctx = (BasisContext *) _ctx;
 
-  int32 ip, ic, ii, imin, ok, xi_ok, ret = RET_OK;
+  int32 ip, ic, ii, imin, ok, ok_min, xi_ok, ret = RET_OK;
   int32 D = mesh->topology->max_dim;
   int32 nc = mesh->geometry->dim;
   float64 d_min, dist;
   float64 *mesh_coors = mesh->geometry->coors;
-  float64 buf3[3];
+  float64 buf3[3], xi_min[3] = {0.0, 0.0, 0.0};
   FMField point[1], e_coors[1], xi[1];
   Indices cell_vertices[1];
   MeshEntity cell_ent[1];
@@ -426,8 +426,8 @@ int32 refc_find_ref_coors(FMField *ref_coors,
       continue;
     }
 
-    ok = xi_ok = 0;
-    d_min = 1e10;
+    ok = ok_min = 0;
+    d_min = 2e10;
     imin = candidates[offsets[ip]];
 
     for (ic = offsets[ip]; ic < offsets[ip+1]; ic++) {
@@ -441,26 +441,26 @@ int32 refc_find_ref_coors(FMField *ref_coors,
                       ctx->e_coors_max->val);
       xi_ok = ctx->get_xi_dist(&dist, xi, point, e_coors, ctx);
 
-      if (xi_ok) {
-        if (dist < qp_eps) {
-          imin = cell_ent->ii;
-          ok = 1;
-          break;
-        } else if (dist < d_min) {
-          d_min = dist;
-          imin = cell_ent->ii;
-        }
-      } else if (dist < d_min) {
+      // Remember the closest cell.
+      if (dist < d_min) {
         d_min = dist;
         imin = cell_ent->ii;
+        ok_min = xi_ok;
+        for (ii = 0; ii < nc; ii++) {
+          xi_min[ii] = xi->val[ii];
+        }
+      }
+      if (xi_ok && (dist < qp_eps)) {
+        ok = 1;
+        break;
       }
     }
-    /* output("-> %d %d %d %.3e\n", imin, xi_ok, ok, d_min); */
+    /* output("-> %d %d %d %.3e\n", imin, ok_min, ok, d_min); */
 
     cells[ip] = imin;
 
     if (ok != 1) {
-      if (!xi_ok) {
+      if (!ok_min) {
         status[ip] = 4;
       } else if (allow_extrapolation) {
         if (sqrt(d_min) < close_limit) {
@@ -476,7 +476,7 @@ int32 refc_find_ref_coors(FMField *ref_coors,
     }
 
     for (ii = 0; ii < nc; ii++) {
-      ref_coors->val[nc*ip+ii] = xi->val[ii];
+      ref_coors->val[nc*ip+ii] = xi_min[ii];
     }
     ERR_CheckGo(ret);
   }
-- 
2.43.0


From 4b50e85ab5f6b023f22719e5a032fe3e2fefdcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 065/107] fix: field meshes of fields in subdomains

---
 sfepy/discrete/fem/fields_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 13a4387..f3fc3fd 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -987,7 +987,7 @@ class FEField(Field):
                 conn = self.econn[:, :self.gel.n_vertex]
 
             conns = [conn]
-            mat_ids = [self.cmesh.cell_groups]
+            mat_ids = [self.cmesh.cell_groups[self.region.get_cells()]]
             tdim = self.cmesh.tdim
             descs = f'{tdim}_{conn.shape[1]}'
             if descs not in mesh.descs:
@@ -1003,6 +1003,9 @@ class FEField(Field):
             mesh = Mesh.from_data(self.name, coors[:, :tdim], None, conns,
                                   mat_ids, [descs])
 
+        elif self.region.shape.n_cell < mesh.n_el:
+            mesh = Mesh.from_region(self.region, mesh, localize=True)
+
         return mesh
 
     def get_evaluate_cache(self, cache=None, share_geometry=False,
-- 
2.43.0


From 3d9d027d1596ba4c243706060cb6a1a40eaf2153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 066/107] fix: evaluate caches of fields in subdomains

---
 sfepy/discrete/fem/fields_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index f3fc3fd..8d7606f 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1044,7 +1044,7 @@ class FEField(Field):
         timer = Timer(start=True)
         if (cache.get('cmesh', None) is None) or not share_geometry:
             mesh = self.create_mesh(extra_nodes=False)
-            cache.cmesh = cmesh = self.cmesh
+            cache.cmesh = cmesh = mesh.cmesh
 
             gels = create_geometry_elements()
 
-- 
2.43.0


From f97c5db8aeec70577592095d633ce37cffdfbe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 067/107] fix: probes reused reference coordinates with another
 close limit

---
 sfepy/discrete/probes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index 0c92b95..2750029 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -187,7 +187,8 @@ class Probe(Struct):
         Return the actual evaluate cache, which is a combination of the
         (mesh-based) evaluate cache and probe-specific data, like the reference
         element coordinates. The reference element coordinates are reused, if
-        the sha1 hash of the probe parameter vector does not change.
+        the sha1 hash of the probe parameter vector and options does not
+        change.
         """
         self.acache += cache
 
@@ -200,6 +201,7 @@ class Probe(Struct):
         sha1 = hashlib.sha1()
         for chunk in _gen_array_chunks(pars):
             sha1.update(chunk)
+        sha1.update(repr(self.options.close_limit).encode())
 
         digest = sha1.hexdigest()
         if digest != self.acache.pars_digest:
-- 
2.43.0


From 2fd3a8fcefac7c769ce0afda6fe2df08ba003b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 068/107] fix: probes without a shared geometry reused data of
 another domain

---
 sfepy/discrete/probes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index 2750029..cc049fe 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -313,6 +313,10 @@ class Probe(Struct):
         cache = field.get_evaluate_cache(cache=self.get_evaluate_cache(),
                                          share_geometry=self.share_geometry)
         self.reset_refinement()
+        if not self.share_geometry:
+            # The previous actual cache might belong to another domain.
+            self.acache = Struct(name='probe_actual_evaluate_cache',
+                                 pars_digest='')
 
         while True:
             pars, points = self.get_points(refine_flag)
-- 
2.43.0


From 4c7a60180e20ae317960607ffda420052b5c2df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:05 +0000
Subject: [PATCH 069/107] fix: circle probes with a size hint

---
 sfepy/discrete/probes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index cc049fe..dbaab25 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -383,7 +383,12 @@ class Probe(Struct):
 
             refine_flag = dist > pd
             if self.is_cyclic:
-                pd1 = 0.5 * (ed[0] + ed[-1])
+                if self.options.size_hint is None:
+                    pd1 = 0.5 * (ed[0] + ed[-1])
+
+                else:
+                    pd1 = self.options.size_hint
+
                 dist1 = nla.norm(points[0] - points[-1])
 
                 refine_flag = nm.r_[refine_flag, dist1 > pd1]
-- 
2.43.0


From 84c339ea36a2aff7e875f9962bcd2f7ead4f2c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:05 +0000
Subject: [PATCH 070/107] fix: normals of 3D circle probes close to the third
 axis

---
 sfepy/discrete/probes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index dbaab25..cca8c61 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -726,8 +726,8 @@ class CircleProbe(Probe):
             axis = nm.cross(n1, self.normal)
             angle = nm.arccos(nm.dot(n1, self.normal))
 
-            if nla.norm(axis) < 0.1:
-                # n1 == self.normal
+            if nla.norm(axis) < 1e-14:
+                # n1 == self.normal or n1 == -self.normal
                 rot_mtx = nm.eye(3, dtype=nm.float64)
             else:
                 rot_mtx = make_axis_rotation_matrix(axis, angle)
-- 
2.43.0


From a41ea6b3e6ad0908f0da66e0cfa8784586f4f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:34 +0000
Subject: [PATCH 071/107] fix: diameters of elements of fields in subdomains

---
 sfepy/discrete/variables.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 066adae..8efb101 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1977,19 +1977,21 @@ class FieldVariable(Variable):
         return out
 
     def get_element_diameters(self, cells, mode, square=False):
-        """Get diameters of selected elements."""
+        """
+        Get diameters of selected elements, given by their indices in the field
+        region.
+        """
         field = self.field
         domain = field.domain
 
         cells = nm.array(cells)
 
-        diameters = nm.empty((cells.shape[0],), dtype=nm.float64)
-
         integral = Integral('i_tmp', 1)
 
         vg, _ = field.get_mapping(field.region, integral, 'cell')
 
-        diameters = domain.get_element_diameters(cells, vg.volume, mode,
+        diameters = domain.get_element_diameters(field.region.get_cells()[cells],
+                                                 vg.volume[cells], mode,
                                                  square=square)
 
         return diameters
@@ -2005,7 +2007,7 @@ class FieldVariable(Variable):
         n_dof, dpn = self.n_dof, self.n_components
         aux = nm.reshape(vec, (n_dof // dpn, dpn))
 
-        ext = self.field.extend_dofs(aux, 0.0)
+        ext = self.field.remove_extra_dofs(aux)
 
         out = {}
         if self.field.approx_order != 0:
-- 
2.43.0


From 925fec71855d996e2d7d64fdd9b6678340fabb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:34 +0000
Subject: [PATCH 072/107] fix: given volumes were rounded to seven digits in
 the homogenization engine

---
 sfepy/homogenization/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index 87ba697..c256b45 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -632,7 +632,7 @@ class HomogenizationEngine(PDESolverApp):
             cfkey = 'Volume_%s' % vk
             vcfkeys.append('c.' + cfkey)
             if 'value' in vv:
-                cf_vols[cfkey] = {'expression': '%e' % float(vv['value']),
+                cf_vols[cfkey] = {'expression': '%.17e' % float(vv['value']),
                                   'class': CoefEval}
             else:
                 cf_vols[cfkey] = {'expression': vv['expression'],
-- 
2.43.0


From 5a518c7f4698cb99887927cd40dce89bb73ee80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:34 +0000
Subject: [PATCH 073/107] fix: repeated calls of the homogenization engine
 modified the problem definition

---
 sfepy/homogenization/engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index c256b45..c71f644 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -638,11 +638,10 @@ class HomogenizationEngine(PDESolverApp):
                 cf_vols[cfkey] = {'expression': vv['expression'],
                                   'class': CoefVolume}
 
+        # Do not modify the original definitions.
+        coef_info = {k: copy(v) for k, v in coef_info.items()}
         for cf in coef_info.values():
-            if 'requires' in cf:
-                cf['requires'] += vcfkeys
-            else:
-                cf['requires'] = vcfkeys
+            cf['requires'] = list(cf.get('requires', [])) + vcfkeys
 
         coef_info.update(cf_vols)
 
@@ -662,7 +661,8 @@ class HomogenizationEngine(PDESolverApp):
 
         # Some coefficients can require other coefficients - resolve their
         # order here.
-        req_info = getattr(self.conf, opts.requirements, {})
+        req_info = {k: copy(v) for k, v
+                    in getattr(self.conf, opts.requirements, {}).items()}
         coef_info = getattr(self.conf, opts.coefs, {})
         coef_info = self.define_volume_coef(coef_info, self.volumes)
 
-- 
2.43.0


From 0ca814424acda986f88be81d421a9fc1ec3bc5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:34 +0000
Subject: [PATCH 074/107] fix: multiprocessing in homogenization of problems
 not defined in a file

---
 sfepy/homogenization/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index c71f644..ff22f43 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -405,7 +405,7 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
 
         workers = multiproc.get_workers()
         if workers is None:
-            conf_file_dir = osp.split(problem.conf.__file__)[0]
+            conf_file_dir = osp.split(problem.conf._filename or '')[0]
             max_workers = problem.conf.options.get('max_workers', None)
             workers = multiproc.init_workers(conf_file_dir, max_workers)
 
@@ -447,7 +447,7 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
 
         workers = multiproc.get_workers()
         if workers is None:
-            conf_file_dir = osp.split(problem.conf._filename)[0]
+            conf_file_dir = osp.split(problem.conf._filename or '')[0]
             max_workers = problem.conf.options.get('max_workers', None)
             workers = multiproc.init_workers(conf_file_dir, max_workers)
 
-- 
2.43.0


From 35c9d06ce40664760ff2d2e1e830f5979f1bdbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:34 +0000
Subject: [PATCH 075/107] fix: previously computed correctors used in recovery
 instead of the given ones

---
 sfepy/homogenization/engine.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index ff22f43..0c17aac 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -399,9 +399,8 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
 
     @staticmethod
     def recover_micro(problem, corrs, rhook, macro_data):
-        dependencies = multiproc.get_dict('dependencies')
-        dependencies.update({k: v for k, v in corrs.items()
-                             if k not in dependencies})
+        dependencies = multiproc.get_dict('dependencies', clear=True)
+        dependencies.update(corrs)
 
         workers = multiproc.get_workers()
         if workers is None:
-- 
2.43.0


From fb2cfe2896fae62c0ad3624412406abb7148a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:34 +0000
Subject: [PATCH 076/107] fix: stored states of microstructures were
 overwritten by updates

---
 sfepy/homogenization/homogen_app.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfepy/homogenization/homogen_app.py b/sfepy/homogenization/homogen_app.py
index d044def..6ad4c7a 100644
--- a/sfepy/homogenization/homogen_app.py
+++ b/sfepy/homogenization/homogen_app.py
@@ -1,3 +1,4 @@
+from copy import copy
 import os.path as op
 import shutil
 
@@ -242,9 +243,10 @@ class HomogenizationApp(PDESolverApp):
 
             ms_cache = self.micro_state_cache
             for ii in self.app_options.store_micro_idxs:
-                for k in self.micro_states.keys():
-                    key = self.get_micro_cache_key(k, ii, itime)
-                    ms_cache[key] = self.micro_states[k][ii]
+                for k, v in self.micro_states.items():
+                    if v is not None:
+                        key = self.get_micro_cache_key(k, ii, itime)
+                        ms_cache[key] = copy(v[ii])
 
             coef_save_name = op.join(opts.output_dir, opts.coefs_filename)
             coefs.to_file_hdf5(coef_save_name + '%s.h5' % time_tag)
-- 
2.43.0


From 86886fcedaf6f987532074aede6560a1db9732b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:29 +0000
Subject: [PATCH 077/107] fix: stored microstructures and compute_only option
 in multiprocessing homogenization

---
 sfepy/homogenization/engine.py | 38 +++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index 0c17aac..9f9bf8e 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -63,20 +63,6 @@ def rm_chtag(key):
     return key[:idx] if idx > 0 else key
 
 
-def chunk_req_info(name, req_info):
-    idx = name.find('|ch:')
-    if idx > 0:
-        name0, ctag = name[:idx], name[idx:]
-        out = req_info[name0].copy()
-        reqs = out.get('requires', [])
-        if len(reqs) > 0:
-            out['requires'] = [k + ctag for k in reqs]
-
-        return out
-    else:
-        return req_info[name]
-
-
 class CoefVolume(MiniAppBase):
     def __call__(self, volume, problem=None, data=None):
         problem = get_default(problem, self.problem)
@@ -274,7 +260,7 @@ class HomogenizationWorker:
         if name.startswith('c.'):
             output('computing %s...' % name[2:])
 
-            cargs = chunk_req_info(name[2:], coef_info)
+            cargs = coef_info[name[2:]]
             mini_app = MiniAppBase.any_from_conf(name[2:], problem, cargs)
             problem.clear_equations()
 
@@ -291,7 +277,7 @@ class HomogenizationWorker:
         else:
             output('computing dependency %s...' % name)
 
-            rargs = chunk_req_info(name, req_info)
+            rargs = req_info[name]
             mini_app = MiniAppBase.any_from_conf(name, problem, rargs)
             mini_app.setup_output(save_formats=opts.save_formats,
                                   post_process_hook=post_process_hook,
@@ -332,7 +318,8 @@ class HomogenizationWorker:
             for ii in range(nchunk):
                 lab = f'|ch:{ii}'
                 key = k + lab
-                val = new[key] = {}
+                val = new[key] = v.copy()
+                val.pop('store_idxs', None)
                 if 'requires' in v:
                     val['requires'] = [jj + lab for jj in v['requires']]
                 if len(store_idxs) > 0:
@@ -440,9 +427,16 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
                 self.chunk_micro_tasks(len(micro_states['coors']),
                                        req_info, coef_info,
                                        chunk_size, store_micro_idxs)
+            compute_only = [f'{k}|ch:{ii}' for ii in range(len(micro_chunk_tab))
+                            for k in get_default(options.compute_only,
+                                                 list(coef_info.keys()))]
         else:
             micro_chunk_tab = None
             req_info_ch, coef_info_ch = req_info, coef_info
+            compute_only = options.compute_only
+            if micro_states is not None:
+                req_info_ch = {k: dict(v, store_idxs=(store_micro_idxs, 0))
+                               for k, v in req_info.items()}
 
         workers = multiproc.get_workers()
         if workers is None:
@@ -451,11 +445,11 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
             workers = multiproc.init_workers(conf_file_dir, max_workers)
 
         wfun = partial(HomogenizationWorkerMulti.calculate_req, problem,
-                       options, post_process_hook, req_info, coef_info,
+                       options, post_process_hook, req_info_ch, coef_info_ch,
                        dependencies, micro_states, time_tag, micro_chunk_tab)
 
         sorted_names = self.get_sorted_dependencies(req_info_ch, coef_info_ch,
-                                                    options.compute_only)
+                                                    compute_only)
 
         # calculate number of dependencies and inverse map
         numdeps = {}
@@ -494,6 +488,12 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
         if micro_chunk_tab is not None:
             dependencies = self.dechunk_reqs_coefs(dependencies,
                                                    len(micro_chunk_tab))
+            save_names_ch, save_names = save_names, {}
+            for ii in range(len(micro_chunk_tab)):
+                for key in [k for k in save_names_ch
+                            if k.endswith(f'|ch:{ii}')]:
+                    save_names.setdefault(rm_chtag(key), []).extend(
+                        save_names_ch[key])
         else:
             dependencies = dependencies.copy()
 
-- 
2.43.0


From 80ffff8b39bd3e40790c9643856c9cef1aab86e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:13 +0000
Subject: [PATCH 078/107] fix: names of requirements that begin with names of
 other requirements in evaluated coefficients

---
 sfepy/homogenization/coefs_base.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/sfepy/homogenization/coefs_base.py b/sfepy/homogenization/coefs_base.py
index 21c15b1..e9a130d 100644
--- a/sfepy/homogenization/coefs_base.py
+++ b/sfepy/homogenization/coefs_base.py
@@ -1,4 +1,5 @@
 import os
+import re
 
 import numpy as nm
 from collections.abc import Iterable
@@ -8,6 +9,18 @@ from sfepy.discrete.evaluate import eval_equations
 from .utils import iter_sym, iter_nonsym, create_pis, create_scalar_pis
 
 
+def insert_requirements(expr, requires):
+    """
+    Replace names of requirements in an expression by items of the `data`
+    dictionary.
+    """
+    if not len(requires):
+        return expr
+
+    names = '|'.join(re.escape(req) for req in
+                     sorted(requires, key=len, reverse=True))
+    return re.sub(r'(?<![\w.])(%s)(?!\w)' % names, r"data['\1']", expr)
+
 class MiniAppBase(Struct):
     def any_from_conf(name, problem, kwargs):
         try:
@@ -315,9 +328,7 @@ class OnesDim(CorrMiniApp):
 class CorrEval(CorrMiniApp):
     def __call__(self, problem=None, data=None):
         problem = get_default(problem, self.problem)
-        expr = self.expression
-        for req in self.requires:
-            expr = expr.replace(req, "data['%s']" % req)
+        expr = insert_requirements(self.expression, self.requires)
 
         val = eval(expr)
 
@@ -860,9 +871,7 @@ class CoefEval(MiniAppBase):
     Evaluate expression.
     """
     def __call__(self, volume, problem=None, data=None):
-        expr = self.expression
-        for req in self.requires:
-            expr = expr.replace(req, "data['%s']" % req)
+        expr = insert_requirements(self.expression, self.requires)
 
         coef = eval(expr)
 
-- 
2.43.0


From 74b1e5a8e05bc3934704d0899866d345a1c6a3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:40 +0000
Subject: [PATCH 079/107] fix: refinement of 1D meshes with arbitrary order of
 cells

---
 sfepy/discrete/fem/refine.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/fem/refine.py b/sfepy/discrete/fem/refine.py
index 1053ec7..9e8b05f 100644
--- a/sfepy/discrete/fem/refine.py
+++ b/sfepy/discrete/fem/refine.py
@@ -16,13 +16,22 @@ def refine_1_2(mesh_in):
 
     cmesh = mesh_in.cmesh
     c_centres = cmesh.get_centroids(cmesh.tdim)
-    new_coors = nm.zeros((2*mesh_in.n_nod - 1, 1))
-    new_coors[0::2] = mesh_in.coors
-    new_coors[1::2] = c_centres
 
-    n_nod = len(new_coors)
+    conn = mesh_in.get_conn('1_2')
+    n_el = conn.shape[0]
+
+    # Sort coordinates of the original vertices and the element centres.
+    coors = nm.r_[mesh_in.coors, c_centres]
+    ii = nm.argsort(coors[:, 0], kind='stable')
+    new_coors = coors[ii]
+
+    nodes = nm.empty(len(ii), dtype=nm.uint32)
+    nodes[ii] = nm.arange(len(ii), dtype=nm.uint32)
+
+    c, b = nodes[conn].T, nodes[mesh_in.n_nod:]
 
-    new_conn = nm.arange(n_nod, dtype=nm.uint32).repeat(2)[1:-1].reshape((-1, 2))
+    new_conn = nm.vstack([c[0], b, b, c[1]]).T
+    new_conn = new_conn.reshape((2 * n_el, 2))
 
     new_mat_id = cmesh.cell_groups.repeat(2)
 
-- 
2.43.0


From f83eb4c7dcaf1c27897b016a36c3c4d3bb598a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:39 +0000
Subject: [PATCH 080/107] fix: integrals of the same order with different
 quadrature points shared cached data

---
 sfepy/discrete/common/fields.py        |  2 +-
 sfepy/discrete/fem/fields_base.py      | 12 ++++++------
 sfepy/discrete/integrals.py            | 18 ++++++++++++++++++
 sfepy/postprocess/plot_quadrature.py   |  2 +-
 sfepy/terms/terms.py                   |  6 +++---
 sfepy/terms/terms_contact.py           |  2 +-
 sfepy/terms/terms_hyperelastic_base.py |  2 +-
 7 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/sfepy/discrete/common/fields.py b/sfepy/discrete/common/fields.py
index f5d3262..d691e7e 100644
--- a/sfepy/discrete/common/fields.py
+++ b/sfepy/discrete/common/fields.py
@@ -230,7 +230,7 @@ class Field(Struct):
         key : tuple
             The key of the mapping in `mappings` or `mappings0`.
         """
-        key = (region.name, integral.order, integration)
+        key = (region.name, integral.get_key(), integration)
 
         if get_saved:
             out = self.mappings0.get(key, None)
diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 8d7606f..7b8fbec 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -634,7 +634,7 @@ class FEField(Field):
         :func:`FEField.create_bqp()`, usually through
         :func:`FEField.create_mapping()`.
         """
-        qpkey = (integral.order, key)
+        qpkey = (integral.get_key(), key)
 
         if qpkey not in self.qp_coors:
             if key[0] == 'b':
@@ -745,7 +745,7 @@ class FEField(Field):
             ps = self.poly_space
 
         _key = key if not from_geometry else 'g' + key
-        bf_key = (integral.order, _key, derivative)
+        bf_key = (integral.get_key(), _key, derivative)
 
         if bf_key not in self.bf:
             ori = self.ori
@@ -766,7 +766,7 @@ class FEField(Field):
         gel = self.gel
 
         sd = self.extra_data[f'sd_{region_name}']
-        bqpkey = (integral.order, sd.bkey)
+        bqpkey = (integral.get_key(), sd.bkey)
         if bqpkey not in self.qp_coors:
             qp = self.get_qp(sd.face_type, integral)
 
@@ -783,7 +783,7 @@ class FEField(Field):
         gel = self.gel
         sd_bkey, face_type = f'b{bkey}', f's{bkey}'
 
-        bqpkey = (integral.order, sd_bkey)
+        bqpkey = (integral.get_key(), sd_bkey)
         if bqpkey not in self.qp_coors:
             qp = self.get_qp(face_type, integral)
 
@@ -1317,7 +1317,7 @@ class FEField(Field):
                     fc_map = efc_map[sd.fis[:, 1]] * (-1)
                     for ikey, bkey in enumerate(bkeys):
                         idx = efc_map == bkey
-                        qp0 = self.qp_coors[(integral.order, f'b{bkey}')]
+                        qp0 = self.qp_coors[(integral.get_key(), f'b{bkey}')]
                         nqp0 = qp0.vals.shape[1]
                         qp.vals[idx, :nqp0, :] = qp0.vals[idx]
                         qp.weights[idx, :nqp0] = qp0.weights
@@ -1357,7 +1357,7 @@ class FEField(Field):
                                               fc_bf_map=(fc_map, fcaxes))
                 else:
                     self.create_bqp(region.name, integral)
-                    qp = self.qp_coors[(integral.order, esd.bkey)]
+                    qp = self.qp_coors[(integral.get_key(), esd.bkey)]
 
                     abf = ps.eval_basis(qp.vals[0], transform=transform)
                     bf = abf[..., self.efaces[0]]
diff --git a/sfepy/discrete/integrals.py b/sfepy/discrete/integrals.py
index d2b5ff5..b6b9375 100644
--- a/sfepy/discrete/integrals.py
+++ b/sfepy/discrete/integrals.py
@@ -104,6 +104,24 @@ class Integral(Struct):
         else:
             self.order = int(order)
 
+    def get_key(self):
+        """
+        Return a key identifying the quadrature rules of the integral: the
+        integration order in the case of the default built-in rules.
+        """
+        if self.mode == 'builtin':
+            return (self.order, 'full') if self.full_order else self.order
+
+        def _freeze(val):
+            if val is None: return None
+
+            val = nm.asarray(val, dtype=nm.float64)
+            return val.shape, val.tobytes()
+
+        return (self.mode, self.tp_fix, self.weight_fix, self.symmetric,
+                _freeze(self.coors), _freeze(self.weights),
+                _freeze(self.bounds))
+
     def get_qp(self, geometry):
         """
         Get quadrature point coordinates and corresponding weights for given
diff --git a/sfepy/postprocess/plot_quadrature.py b/sfepy/postprocess/plot_quadrature.py
index ba3a5e4..6f65dcc 100644
--- a/sfepy/postprocess/plot_quadrature.py
+++ b/sfepy/postprocess/plot_quadrature.py
@@ -44,7 +44,7 @@ def _get_bqp(geometry, order):
     field.create_bqp('Surf', integral)
 
     sd = field.extra_data['sd_Surf']
-    qp = field.qp_coors[(integral.order, sd.bkey)]
+    qp = field.qp_coors[(integral.get_key(), sd.bkey)]
 
     output('geometry:', geometry, 'order:', order, 'num. points:',
            qp.vals.shape[1], 'true_order:',
diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index 41965f5..29488df 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -873,7 +873,7 @@ class Term(Struct):
             arg_types = ats
         args = []
 
-        region_name, iorder = self.region.name, self.integral.order
+        region_name, ikey = self.region.name, self.integral.get_key()
         for at in arg_types:
             ii = ats.index(at)
             arg_name = self.arg_names[ii]
@@ -887,7 +887,7 @@ class Term(Struct):
             else:
                 mat, par_name = self.args[ii]
                 if mat is not None:
-                    mat_data = mat.get_data((region_name, iorder), par_name)
+                    mat_data = mat.get_data((region_name, ikey), par_name)
 
                 else:
                     mat_data = None
@@ -1070,7 +1070,7 @@ class Term(Struct):
         """
         Return a key identifying uniquely the term quadrature points.
         """
-        return (self.region.name, self.integral.order)
+        return (self.region.name, self.integral.get_key())
 
     def get_physical_qps(self):
         """
diff --git a/sfepy/terms/terms_contact.py b/sfepy/terms/terms_contact.py
index 56d7256..da147c2 100644
--- a/sfepy/terms/terms_contact.py
+++ b/sfepy/terms/terms_contact.py
@@ -28,7 +28,7 @@ class ContactInfo(Struct):
         gname = state.field.gel.name
         ib = 3 if gname == '3_8' else 0
 
-        bqpkey = (integral.order, sd.bkey)
+        bqpkey = (integral.get_key(), sd.bkey)
         state.field.create_bqp(region.name, integral)
         bqp = state.field.qp_coors[bqpkey]
 
diff --git a/sfepy/terms/terms_hyperelastic_base.py b/sfepy/terms/terms_hyperelastic_base.py
index b2c6551..369c1dd 100644
--- a/sfepy/terms/terms_hyperelastic_base.py
+++ b/sfepy/terms/terms_hyperelastic_base.py
@@ -53,7 +53,7 @@ class HyperElasticFamilyData(Struct):
         step_cache = state.evaluate_cache.setdefault(self.cache_name, {})
         cache = step_cache.setdefault(step, {})
 
-        key = (region.name, integral.order, geometry_type)
+        key = (region.name, integral.get_key(), geometry_type)
         data_key = key + (derivative,)
 
         if data_key in cache:
-- 
2.43.0


From f003a3cdf28c10894b3b85b68b50be056e6b1553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:05 +0000
Subject: [PATCH 081/107] fix: adding a term to a sum of terms changed the sum,
 += of terms failed or merged attributes

---
 sfepy/terms/terms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index 29488df..a2ebe44 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -249,8 +249,7 @@ class Terms(Container):
 
     def __add__(self, other):
         if isinstance(other, Term):
-            out = self.copy()
-            out.append(other)
+            out = Terms(self._objs + [other])
 
         elif isinstance(other, Terms):
             out = Terms(self._objs + other._objs)
@@ -263,6 +262,9 @@ class Terms(Container):
     def __radd__(self, other):
         return self + other
 
+    def __iadd__(self, other):
+        return self + other
+
     def __sub__(self, other):
         if isinstance(other, Term):
             out = self + (-other)
@@ -415,6 +417,10 @@ class Term(Struct):
 
         return out
 
+    def __iadd__(self, other):
+        # Do not use Struct.__iadd__().
+        return self + other
+
     def __sub__(self, other):
         if isinstance(other, Term):
             out = Terms([self, -1.0 * other])
-- 
2.43.0


From e3af216b8f5e2b8b617308e9919e09449e4c6e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:46 +0000
Subject: [PATCH 082/107] fix: refuse different forms of a variable in a term,
 only the last one was used

---
 sfepy/terms/terms.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index a2ebe44..79397ea 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -510,6 +510,18 @@ class Term(Struct):
             if match:
                 name = (match.group(1), match.group(2))
 
+            if name in self.arg_steps:
+                new_form = (step, derivative, trace, trace_region)
+                old_form = (self.arg_steps[name], self.arg_derivatives[name],
+                            self.arg_traces[name],
+                            self.arg_trace_regions[name])
+                if new_form != old_form:
+                    raise ValueError(
+                        f"term '{self.get_str()}': different forms (time step,"
+                        f" derivative, trace) of argument '{name}' in a single"
+                        " term are not supported!"
+                    )
+
             self.arg_names.append(name)
             self.arg_steps[name] = step
             self.arg_derivatives[name] = derivative
-- 
2.43.0


From f63ecaa2c0a6a81a331d112c4b139ec9b9d54b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:46 +0000
Subject: [PATCH 083/107] fix: constant materials by regions with complex
 values in other than the first region

---
 sfepy/discrete/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/functions.py b/sfepy/discrete/functions.py
index 2f1e486..a8d1d7d 100644
--- a/sfepy/discrete/functions.py
+++ b/sfepy/discrete/functions.py
@@ -156,7 +156,9 @@ class ConstantFunctionByRegion(Function):
                     if '.' in key: continue
                     rval = nm.array(val[list(val.keys())[0]], ndmin=3)
                     s0 = rval.shape[1:]
-                    dtype = nm.float64 if nm.isrealobj(rval) else nm.complex128
+                    dtype = (nm.float64 if all(nm.isrealobj(rv)
+                                               for rv in val.values())
+                             else nm.complex128)
                     matdata = nm.zeros(qps.shape[:2] + s0, dtype=dtype)
 
                     for rkey, rval in val.items():
-- 
2.43.0


From 884ed6c83f699c5c1129ad3612c4cf184dee8a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:48 +0000
Subject: [PATCH 084/107] fix: constant materials with a function set later
 were not updated in time

---
 sfepy/discrete/materials.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/materials.py b/sfepy/discrete/materials.py
index 563c221..083c6e0 100644
--- a/sfepy/discrete/materials.py
+++ b/sfepy/discrete/materials.py
@@ -365,6 +365,8 @@ class Material(Struct):
 
     def set_function(self, function):
         self.function = function
+        self.is_constant = isinstance(function, (ConstantFunction,
+                                                 ConstantFunctionByRegion))
         self.reset()
 
     def reset(self):
-- 
2.43.0


From 3f6f3723d5ef710833f9e75361850a6fe7f308c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:39 +0000
Subject: [PATCH 085/107] fix: traces in mirror regions with differently
 ordered vertices and in higher order fields

---
 sfepy/discrete/fem/fe_surface.py  | 82 +++++++++++++++++--------------
 sfepy/discrete/fem/fields_base.py |  9 +++-
 2 files changed, 53 insertions(+), 38 deletions(-)

diff --git a/sfepy/discrete/fem/fe_surface.py b/sfepy/discrete/fem/fe_surface.py
index 0b66423..5affb33 100644
--- a/sfepy/discrete/fem/fe_surface.py
+++ b/sfepy/discrete/fem/fe_surface.py
@@ -1,7 +1,6 @@
 import numpy as nm
 
 from sfepy.base.base import get_default, Struct
-from sfepy.discrete.fem.facets import build_orientation_map
 from sfepy.discrete.fem.utils import prepare_remap
 
 class FESurface(Struct):
@@ -60,7 +59,6 @@ class FESurface(Struct):
         self.bkey = bkey
         self.meconn = {}
         self.mleconn = {}
-        self.set_orientation_map()
 
     @staticmethod
     def from_region(name, region, ret_gel=False):
@@ -78,57 +76,68 @@ class FESurface(Struct):
         else:
             return surface
 
-    def set_orientation_map(self):
-        n_fp = self.n_fp
-        if n_fp <= 4:
-            oo, _, _ = build_orientation_map(n_fp)
-            ori_map = nm.zeros((nm.max(list(oo.keys())) + 1, n_fp),
-                               dtype=nm.int32)
-            ori_map[list(oo.keys())] = nm.array([ii[1] for ii in oo.values()])
-            self.ori_map = ori_map
+    @staticmethod
+    def get_facet_vertices(region):
+        """
+        Get vertices of the region facets ordered as in `econn`.
+        """
+        if region.tdim == (region.dim - 1):
+            return region.domain.get_conn(tdim=region.tdim)[region.get_cells()]
+
         else:
-            self.ori_map = None
+            return FESurface.from_region('facets', region).econn
 
-    def setup_mirror_connectivity(self, region, mirror_name):
+    def setup_mirror_connectivity(self, region, mirror_name, node_coors):
         """
         Setup mirror surface connectivity required to integrate over a
         mirror region.
 
-        1. Get orientation of the faces:
-           a) for own elements -> ooris
-           b) for mirror elements -> moris
+        1. Match vertices of own and mirror facets.
+        2. Order the facet nodes as in the mirror facets.
 
-        2. orientation -> permutation.
+        Parameters
+        ----------
+        region : Region
+            The region of the surface.
+        mirror_name : str
+            The name of the mirror region.
+        node_coors : array
+            The coordinates of the nodes of the reference facet, vertices
+            first.
         """
-        def get_omap(reg, ori_map):
-            if reg.tdim == (reg.dim - 1):
-                cells = reg.get_cells()
-                conn = reg.domain.get_conn(tdim=reg.tdim)[cells, :]
-                return nm.argsort(conn)
-            else:
-                conn = reg.cmesh.get_conn_as_graph(reg.dim, reg.dim - 1)
-                oris = reg.cmesh.facet_oris
-                fis = reg.get_facet_indices()
-                return ori_map[oris[conn.indptr[fis[:, 0]] + fis[:, 1]]]
-
         if mirror_name in self.meconn:
             return
 
         mregion = region.get_mirror_region(mirror_name)
-        mmap = get_omap(mregion, self.ori_map)
-        omap = get_omap(region, self.ori_map)
+        facets = self.get_facet_vertices(region)
+        mfacets = self.get_facet_vertices(mregion)
 
         econn = self.econn
-        if mirror_name in region.mirror_maps\
-            and region.mirror_maps[mirror_name] is not None:
-            mirror_map = region.mirror_maps[mirror_name]
-            omap = omap[mirror_map]
+        mirror_map = region.mirror_maps.get(mirror_name)
+        if mirror_map is not None:
+            facets = facets[mirror_map]
             econn = econn[mirror_map]
 
-        n_el, n_ep = econn.shape
-        ii = nm.repeat(nm.arange(n_el)[:, None], n_ep, 1)
+        def _get_rel_coors(reg, conn):
+            coors = reg.cmesh.coors[conn]
+            mid = 0.5 * (coors.min(axis=1) + coors.max(axis=1))
+            return coors - mid[:, None]
+
+        dist = nm.abs(_get_rel_coors(region, facets)[:, :, None]
+                      - _get_rel_coors(mregion, mfacets)[:, None]).sum(axis=3)
+        # Own facet vertices corresponding to the mirror facet vertices.
+        perms = dist.argmin(axis=1)
+
+        n_v = facets.shape[1]
+        mtx = nm.c_[node_coors, nm.ones(node_coors.shape[0])]
         meconn = nm.empty_like(econn)
-        meconn[ii, mmap] = econn[ii, omap]
+        for perm in nm.unique(perms, axis=0):
+            ii = nm.nonzero((perms == perm).all(axis=1))[0]
+            trans = nm.linalg.lstsq(mtx[:n_v], node_coors[perm], rcond=None)[0]
+            dist = nm.abs(node_coors[:, None]
+                          - nm.dot(mtx, trans)[None]).sum(axis=2)
+            inodes = dist.argmin(axis=0)
+            meconn[ii] = econn[ii][:, inodes]
 
         nodes = nm.unique(meconn)
         remap = prepare_remap(nodes, nodes.max() + 1)
@@ -196,4 +205,3 @@ class FEPhantomSurface(FESurface):
         self.bkey = bkey
         self.meconn = {}
         self.mleconn = {}
-        self.set_orientation_map()
diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 7b8fbec..e6dcb54 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1216,7 +1216,14 @@ class FEField(Field):
 
         if name in self.extra_data and trace_region is not None:
             sd = self.extra_data[name]
-            sd.setup_mirror_connectivity(region, trace_region)
+            ps = self.poly_space
+            nodes = (slice(None) if isinstance(sd, FEPhantomSurface)
+                     else self.efaces[0])
+            node_coors = ps.node_coors[nodes]
+            if ps.name.startswith('lobatto') and self.approx_order > 1:
+                raise NotImplementedError('traces of higher order fields with'
+                                          f' "{ps.name}" basis!')
+            sd.setup_mirror_connectivity(region, trace_region, node_coors)
 
     def setup_point_data(self, field, region):
         name = f'pd_{region.name}'
-- 
2.43.0


From 0bf98029e4fe6f02a354cd5db8ae6e2803e977c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:12 +0000
Subject: [PATCH 086/107] fix: cylinders around other axes than x and annular
 meshes had permuted centres

---
 sfepy/mesh/mesh_generators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index d6490cd..bfe9e93 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -179,7 +179,7 @@ def gen_cylinder_mesh(dims, shape, centre, axis='x', force_hollow=False,
         nl = 1
         is_2d_topo = True
 
-    origin = centre - nm.array([0.5 * length, 0.0, 0.0])
+    origin = nm.array([-0.5 * length, 0.0, 0.0])
 
     dfi = 2.0 * (nm.pi - open_angle) / nfi
     if is_open:
@@ -287,6 +287,8 @@ def gen_cylinder_mesh(dims, shape, centre, axis='x', force_hollow=False,
     elif axis == 'y':
         coors = coors[:,[2,0,1]]
 
+    coors = coors + centre[:coors.shape[1]]
+
     mesh = Mesh.from_data(name, coors, None, [conn], [mat_id], [desc])
     return mesh
 
-- 
2.43.0


From 2f01bd2eb0f455a521ae4f1cefb5d1f97db7ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:14 +0000
Subject: [PATCH 087/107] fix: saved pairs of periodic nodes were used for
 other nodes in the same number

---
 sfepy/discrete/fem/periodic.py | 37 ++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/periodic.py b/sfepy/discrete/fem/periodic.py
index fa7c6a7..fde6556 100644
--- a/sfepy/discrete/fem/periodic.py
+++ b/sfepy/discrete/fem/periodic.py
@@ -10,6 +10,25 @@ eps = 1e-9
 def set_accuracy(eps):
     globals()['eps'] = eps
 
+def _is_saved_match(key, coors1, coors2):
+    """
+    Return True, if the saved pairs of nodes match also `coors1` and `coors2`.
+    """
+    i1, i2 = periodic_cache[key]
+    kind, arg = key[-2:]
+    shifts = coors1[i1] - coors2[i2]
+
+    if kind == 'line':
+        return bool(nm.all(nm.abs(shifts[:, arg]) < eps))
+
+    if arg is not None:
+        direction = nm.asarray(arg, dtype=nm.float64)[:coors1.shape[1]]
+        direction = direction / nm.linalg.norm(direction)
+        shift = nm.dot(shifts[:1], direction) * direction
+        shifts = shifts - shift
+
+    return bool(nm.all(nm.linalg.norm(shifts, axis=1) < eps))
+
 ##
 # c: 18.10.2006, r: 05.05.2008
 def match_grid_line(coors1, coors2, which, get_saved=True):
@@ -21,7 +40,8 @@ def match_grid_line(coors1, coors2, which, get_saved=True):
               % (coors1.shape, coors2.shape))
 
     key = coors1.shape + ('line', which)
-    if key in periodic_cache and get_saved:
+    is_saved = key in periodic_cache and get_saved
+    if is_saved and _is_saved_match(key, coors1, coors2):
         return periodic_cache[key]
     else:
         c1 = coors1[:,which]
@@ -30,6 +50,10 @@ def match_grid_line(coors1, coors2, which, get_saved=True):
         i2 = nm.argsort(c2)
 
         if not nm.all(nm.abs(c1[i1] - c2[i2]) < eps):
+            if is_saved:
+                # Deformed coordinates.
+                return periodic_cache[key]
+
             print(c1[i1])
             print(c2[i2])
             print(nm.abs(c1[i1] - c2[i2]).max())
@@ -60,7 +84,8 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
 
     key_dir = None if direction is None else tuple(direction)
     key = coors1.shape + ('dir', key_dir)
-    if key in periodic_cache and get_saved:
+    is_saved = key in periodic_cache and get_saved
+    if is_saved and _is_saved_match(key, coors1, coors2):
         return periodic_cache[key]
     else:
         aux = coors2.copy()
@@ -73,6 +98,10 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
                                   axis=1)
             idx = nm.where(dist < eps)[0]
             if len(idx) < 1:
+                if is_saved:
+                    # Deformed coordinates.
+                    return periodic_cache[key]
+
                 print(direction)
                 print(dist)
                 raise ValueError('cannot match nodes!')
@@ -82,6 +111,10 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
         i1, i2 = find_map(coors1, aux, join=False)
 
         if i1.shape[0] != coors1.shape[0]:
+            if is_saved:
+                # Deformed coordinates.
+                return periodic_cache[key]
+
             print(direction)
             print(coors1[i1])
             print(coors2[i2])
-- 
2.43.0


From cc7ae1244e131845e9fcfe15e31ec52520d620a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:12 +0000
Subject: [PATCH 088/107] fix: extended block meshes with the default grading
 and one layer of cells

---
 sfepy/mesh/mesh_generators.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index bfe9e93..fef01e2 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -392,10 +392,14 @@ def gen_extended_block_mesh(b_dims, b_shape, e_dims, e_shape, centre,
     pe_dims = 0.5 * (e_dims - b_dims)
     # Central block element sizes.
     dd = (b_dims / (b_shape - 1))
-    # The "first x" going to grading_fun.
-    nc = 1.0 / (e_shape - 1)
     # Grading power and function.
-    power = nm.log(dd.min() / pe_dims.min()) / nm.log(nc)
+    if e_shape > 2:
+        # The "first x" going to grading_fun.
+        nc = 1.0 / (e_shape - 1)
+        power = nm.log(dd.min() / pe_dims.min()) / nm.log(nc)
+
+    else: # No nodes to be shifted.
+        power = 1.0
     grading_fun = (lambda x: x**power) if grading_fun is None else grading_fun
 
     # Central block mesh.
-- 
2.43.0


From 662c73e1e4ad3d2bb6221cb96ab1bbae330d166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:40 +0000
Subject: [PATCH 089/107] fix: fix_double_nodes() of nodes in several pairs,
 find_map() report of double nodes in the second mesh

---
 sfepy/discrete/fem/mesh.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index ed54982..869e18c 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -31,7 +31,7 @@ def find_map(x1, x2, allow_double=False, join=True):
             output('x1: %d %d -> %s %s' % (idxs[0], idxs[1],
                                            x1[idxs[0], :], x1[idxs[1], :]))
         for dn in dns2:
-            idxs = cmap[dn, :]
+            idxs = cmap[dn, :] - x1.shape[0]
             output('x2: %d %d -> %s %s' % (idxs[0], idxs[1],
                                            x2[idxs[0], :], x2[idxs[1], :]))
 
@@ -93,12 +93,13 @@ def fix_double_nodes(coor, ngroups, conns):
             ii = nm.argsort(cmap[:,1])
             scmap = cmap[ii]
 
+            # A node can be in several pairs, follow to the node that is kept.
+            n_nod = coor.shape[0]
             eq = nm.arange(n_nod)
-            eq[scmap[:,1]] = -1
-            eqi = eq[eq >= 0]
-            eq[eqi] = nm.arange(eqi.shape[0])
-            remap = eq.copy()
-            remap[scmap[:,1]] = eq[scmap[:,0]]
+            for i1, i2 in scmap:
+                eq[i2] = eq[i1]
+            eqi = nm.where(eq == nm.arange(n_nod))[0]
+            remap = nm.searchsorted(eqi, eq)
             output(coor.shape)
             coor = coor[eqi]
             ngroups = ngroups[eqi]
-- 
2.43.0


From 6d8795641db0a404037c03c7804f25e608a2d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:34 +0000
Subject: [PATCH 090/107] fix: IndexError in gen_mesh_from_voxels() with
 different numbers of rows and columns

---
 sfepy/mesh/mesh_generators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index fef01e2..f3a2fdb 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -763,6 +763,8 @@ def gen_mesh_from_voxels(voxels, dims, etype='q'):
     dims = nm.array(dims).squeeze()
     dim = len(dims)
     nddims = nm.array(voxels.shape) + 2
+    # x corresponds to columns, y to rows.
+    nddims[:2] = nddims[1::-1]
 
     nodemtx = nm.zeros(nddims, dtype=nm.int32)
 
-- 
2.43.0


From d1069b4d32c9bff78e5960d0230757846f343274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:34 +0000
Subject: [PATCH 091/107] fix: get_cell_vertices_only() of meshes with several
 kinds of cells

---
 sfepy/mesh/mesh_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 2c1ef9f..1f66ea5 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -449,7 +449,7 @@ def get_cell_vertices_only(mesh):
         FE mesh
     """
     data = list(mesh._get_io_data())
-    vertices = nm.unique([nm.unique(conn.ravel()) for conn in data[2]])
+    vertices = nm.unique(nm.concatenate([conn.ravel() for conn in data[2]]))
 
     remap = prepare_translate(vertices, nm.arange(len(vertices)))
 
-- 
2.43.0


From 5af90f849cf16eb2127204119f77fa8eb8c3b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:34 +0000
Subject: [PATCH 092/107] fix: volume correction in smooth_mesh()

---
 sfepy/mesh/mesh_tools.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 1f66ea5..e0ec1ee 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -130,16 +130,21 @@ def smooth_mesh(mesh, n_iter=4, lam=0.6307, mu=-0.6347,
 
         return coors
 
-    def get_volume(el, nd):
+    def get_volume(mesh, nd):
         from sfepy.linalg.utils import dets_fast
 
         dim = nd.shape[1]
-        nnd = el.shape[1]
 
-        etype = '%d_%d' % (dim, nnd)
-        if etype == '2_4' or etype == '3_8':
-            el = elems_q2t(el)
+        els = []
+        for desc in mesh.descs:
+            if int(desc[0]) != mesh.cmesh.tdim: continue
+
+            el = mesh.get_conn(desc)
+            if desc in ('2_4', '3_8'):
+                el = elems_q2t(el)
+            els.append(el)
 
+        el = nm.concatenate(els)
         nel = el.shape[0]
 
         #bc = nm.zeros((dim, ), dtype=nm.double)
@@ -151,7 +156,7 @@ def smooth_mesh(mesh, n_iter=4, lam=0.6307, mu=-0.6347,
         mtx[:,:,:-1] = nd[el,:]
         vols = mul * dets_fast(mtx)
         vol = vols.sum()
-        bc = nm.dot(vols, mtx.sum(1)[:,:-1] / nnd)
+        bc = nm.dot(vols, mtx.sum(1)[:,:-1] / (dim + 1))
 
         bc /= vol
 
@@ -208,10 +213,10 @@ def smooth_mesh(mesh, n_iter=4, lam=0.6307, mu=-0.6347,
     if volume_corr:
         output('rescaling...')
         timer.start()
-        volume0, bc = get_volume(mesh.conns[0], mesh.coors)
-        volume, _ = get_volume(mesh.conns[0], coors)
+        volume0, bc = get_volume(mesh, mesh.coors)
+        volume, _ = get_volume(mesh, coors)
 
-        scale = volume0 / volume
+        scale = (volume0 / volume) ** (1.0 / coors.shape[1])
         output('scale factor: %.2f' % scale)
 
         coors = (coors - bc) * scale + bc
-- 
2.43.0


From b6b70e6711e5822aba9aaccb66fc810e090717f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:11 +0000
Subject: [PATCH 093/107] fix: nodal regions and cells of lower dimensions lost
 in copies of meshes, repeated groups of cells of one kind

---
 sfepy/discrete/fem/mesh.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index 869e18c..afce05b 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -304,7 +304,7 @@ class Mesh(Struct):
             self._set_shape_info()
 
     def __reduce__(self):
-        io_data = self._get_io_data() + (None,)
+        io_data = self._get_io_data() + (self.nodal_bcs,)
         return (Mesh, (self.name, None, io_data))
 
     def copy(self, name=None):
@@ -319,8 +319,29 @@ class Mesh(Struct):
         if name is None:
             name = self.name
 
-        cmesh = self.cmesh.create_new()
-        return Mesh(name=name, cmesh=cmesh)
+        mesh = Mesh(name=name, cmesh=self.cmesh.create_new())
+        mesh.descs = list(self.descs)
+        mesh.nodal_bcs = {key : nm.array(val)
+                          for key, val in self.nodal_bcs.items()}
+
+        # Cells of lower dimensions share the coordinates.
+        for tdim, cmesh in enumerate(self.cmesh_tdim):
+            if (cmesh is None) or (cmesh is self.cmesh): continue
+
+            descs = [desc for desc in self.descs if int(desc[0]) == tdim]
+            data = [self.get_conn(desc, ret_cells=True, tdim=tdim)
+                    for desc in descs]
+            conns = [conn.astype(nm.uint32) for conn, _ in data]
+            mat_ids = nm.concatenate([cmesh.cell_groups[cells]
+                                      for _, cells in data])
+            mesh.cmesh_tdim[tdim] = type(cmesh).from_data(
+                mesh.coors, mesh.cmesh.vertex_groups, conns, mat_ids, descs,
+                copy_coors=False,
+            )
+
+        mesh._set_shape_info()
+
+        return mesh
 
     def __add__(self, other):
         """
@@ -380,7 +401,8 @@ class Mesh(Struct):
             ngroups = nm.zeros((coors.shape[0],), dtype=nm.int32)
         ngroups = ac(ngroups, dtype=nm.int32)
 
-        self.descs = descs
+        # Several groups of cells can be of the same kind.
+        self.descs = list(dict.fromkeys(descs))
         self.nodal_bcs = get_default(nodal_bcs, {})
 
         max_tdim = nm.max([int(k[0]) for k in descs])
@@ -551,8 +573,8 @@ class Mesh(Struct):
         timer = Timer(start=True)
 
         graph = 0
-        for tdim in self.dims:
-            conn = self.get_conn(self.descs[0], tdim=tdim)
+        for desc, tdim in zip(self.descs, self.dims):
+            conn = self.get_conn(desc, tdim=tdim)
             graph += create_dof_graph(conn, conn, shape).tocsr()
 
         output('...done in %.2f s' % timer.stop(), verbose=verbose)
-- 
2.43.0


From fa21b201ebb1780a87e88bf41a2ca0ca0544b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:52 +0000
Subject: [PATCH 094/107] fix: tetrahedra of extruded and revolved meshes did
 not match, their groups in mixed meshes

---
 sfepy/mesh/mesh_tools.py | 47 ++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index e0ec1ee..a7ab126 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -565,7 +565,7 @@ def get_mesh_by_ngroup(mesh, value, cell_vertices_only=True):
 
 
 def stack_descs(conns, mat_ids, descs):
-    sdescs = set(descs)
+    sdescs = list(dict.fromkeys(descs))
     sconns = {k: [] for k in sdescs}
     smat_ids = {k: [] for k in sdescs}
 
@@ -575,7 +575,41 @@ def stack_descs(conns, mat_ids, descs):
 
     return ([nm.vstack(sconns[k]) for k in sdescs],
             [nm.hstack(smat_ids[k]) for k in sdescs],
-            list(sdescs))
+            sdescs)
+
+
+def split_wedges(conns):
+    """
+    Split wedges to tetrahedrons. The diagonals of the lateral faces are given
+    by the order of the vertices, so that the tetrahedrons of neighbouring
+    wedges match.
+
+    Parameters
+    ----------
+    conns: array
+        Vertices of wedges, the order of the vertices of the top bases has to
+        correspond to that of the bottom bases.
+
+    Returns
+    -------
+    out: array
+        Vertices of tetrahedrons, three for each wedge.
+    """
+    order = nm.argsort(conns[:, :3], axis=1)
+    is_odd = (order[:, 1] - order[:, 0]) % 3 == 2
+    order = nm.hstack([order, order + 3])
+    sconns = nm.take_along_axis(conns, order, axis=1)
+
+    out = nm.empty((3 * conns.shape[0], 4), dtype=conns.dtype)
+    out[0::3] = sconns[:, [0, 1, 2, 5]]
+    out[1::3] = sconns[:, [0, 1, 5, 4]]
+    out[2::3] = sconns[:, [0, 4, 5, 3]]
+
+    # Keep positive volumes.
+    ii = nm.repeat(is_odd, 3)
+    out[ii] = out[ii][:, [1, 0, 2, 3]]
+
+    return out
 
 
 def extrude(mesh, cline, twist=None, scale=None, nvec=None,
@@ -687,13 +721,8 @@ def extrude(mesh, cline, twist=None, scale=None, nvec=None,
             emat_ids = mat_ids[cidxs]
             if econns.shape[1] == 6:
                 if wedge_to_tetra:  # wedges -> 3 x tetrahedron
-                    econns1 = nm.empty((3* econns.shape[0], 4),
-                                       dtype=econns.dtype)
-                    econns1[0::3] = econns[:, [0, 1, 2, 5]]
-                    econns1[1::3] = econns[:, [0, 1, 5, 4]]
-                    econns1[2::3] = econns[:, [0, 4, 5, 3]]
-                    econns = econns1
-                    emat_ids = nm.repeat(mat_ids, 3)
+                    econns = split_wedges(econns)
+                    emat_ids = nm.repeat(emat_ids, 3)
 
             new_conns.append(econns)
             new_mat_ids.append(emat_ids)
-- 
2.43.0


From fb8e2c456d7bcbecd205ffc2d8dc01c66bbf9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:52 +0000
Subject: [PATCH 095/107] fix: revolve() about axes given by not normalized
 vectors and for the angle of 180 degrees

---
 sfepy/mesh/mesh_tools.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index a7ab126..9c63ae8 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -697,10 +697,6 @@ def extrude(mesh, cline, twist=None, scale=None, nvec=None,
             scale = nm.cumsum(nm.repeat(scale, len(cline)))
 
     new_coors = [coors0 + cline[[0], :]]
-    new_conns, new_mat_ids, new_descs = [], [], []
-    mat_ids = mesh.cmesh.cell_groups
-    nnd = coors0.shape[0]
-    new_vgroups = nm.hstack([mesh.cmesh.vertex_groups] * len(cline))
 
     for k in range(len(cline) - 1):
         rotation = get_rotation(nvec0, nvec[k])
@@ -715,6 +711,20 @@ def extrude(mesh, cline, twist=None, scale=None, nvec=None,
 
         new_coors.append(coors + cline[[k + 1], :])
 
+    return _connect_layers(mesh, new_coors, wedge_to_tetra)
+
+
+def _connect_layers(mesh, layers, wedge_to_tetra):
+    """
+    Create a solid 3D mesh from a given planar 2D mesh and coordinates of its
+    vertices in the individual layers.
+    """
+    new_conns, new_mat_ids, new_descs = [], [], []
+    mat_ids = mesh.cmesh.cell_groups
+    nnd = layers[0].shape[0]
+    new_vgroups = nm.hstack([mesh.cmesh.vertex_groups] * len(layers))
+
+    for k in range(len(layers) - 1):
         for desc in mesh.descs:
             conns, cidxs = mesh.get_conn(desc, ret_cells=True)
             econns = nm.hstack([conns + nnd * k, conns + nnd * (k + 1)])
@@ -729,7 +739,7 @@ def extrude(mesh, cline, twist=None, scale=None, nvec=None,
             new_descs.append(f'3_{econns.shape[1]}')
 
     out = Mesh.from_data(mesh.name,
-                         nm.vstack(new_coors), new_vgroups,
+                         nm.vstack(layers), new_vgroups,
                          *stack_descs(new_conns, new_mat_ids, new_descs))
 
     return out
@@ -835,20 +845,14 @@ def revolve(mesh, nphi, p, v=(1, 0, 0), phi_max=None, wedge_to_tetra=True):
 
     p = nm.array(p)[None, :]
     v = nm.array(v)
+    v = v / nm.linalg.norm(v)
 
     coors = mesh.coors
-    ccoor = nm.mean(coors, axis=0)
     if coors.shape[1] == 2:
-        ccoor = nm.array([ccoor[0], ccoor[1], 0])
-
-    cline = nm.vstack([Rotation.from_rotvec(v * ph).apply(ccoor - p)
-                       for ph in phi]) + p
- 
-    nvec0 = nm.array([0, 0, 1])
-    nvec = nm.vstack([Rotation.from_rotvec(v * ph).apply(nvec0)
-                      for ph in phi[1:]])
+        coors = nm.hstack([coors, coors[:, [0]] * 0])
 
-    out = extrude(mesh, cline, nvec=nvec, wedge_to_tetra=wedge_to_tetra)
+    layers = [Rotation.from_rotvec(v * ph).apply(coors - p) + p for ph in phi]
+    out = _connect_layers(mesh, layers, wedge_to_tetra)
 
     if phi_max == 360:
         out = merge_nodes(out)
-- 
2.43.0


From 765a0b14834fc119b6c218b427e030e1cf2220f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:44 +0000
Subject: [PATCH 096/107] fix: rigid_twist conditions moved nodes in directions
 other than the axis

---
 sfepy/discrete/fem/lcbc_operators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 6389522..539f736 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -423,8 +423,10 @@ class RigidTwistOperator(MRLCBCOperator):
         mtx_mr = _create_spin_matrix(mr).reshape((n_mnod * dim, -1))
         mtx_sr = _create_spin_matrix(sr).reshape((n_snod * dim, -1))
 
-        mtx_mw = -0.5 * (mtx_mr + thread) @ self.axis
-        mtx_sw = 0.5 * (mtx_sr + thread) @ self.axis
+        mtx_mw = -0.5 * (mtx_mr @ self.axis
+                         + nm.tile(thread * self.axis, n_mnod))
+        mtx_sw = 0.5 * (mtx_sr @ self.axis
+                        + nm.tile(thread * self.axis, n_snod))
 
         mtx = nm.vstack((
             nm.hstack((mtx_me, mtx_mr, mtx_mw[:, None])),
-- 
2.43.0


From 2101929551d88dcff60b92b6873075686b74ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:52 +0000
Subject: [PATCH 097/107] fix: average_force conditions without rotations and
 with weights from functions

---
 sfepy/discrete/fem/lcbc_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 539f736..1e9fd70 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -289,7 +289,7 @@ class AverageForceOperator(LCBCOperator):
         if dof_map_fun is None:
             dof_map_fun = lambda a, b: nm.ones((n_nod, sym),
                                                dtype=nm.float64)
-        sweights = dof_map_fun(mcoors, scoors)
+        sweights = nm.array(dof_map_fun(mcoors, scoors), dtype=nm.float64)
         sweights[:, dim:] *= length**2
 
         if is_rotation:
@@ -314,7 +314,7 @@ class AverageForceOperator(LCBCOperator):
 
         else:
             # As above, but S = I(dim) -> simplified code.
-            mtx_ws = (nm.eye(dim) * sweights[..., None])
+            mtx_ws = (nm.eye(dim) * sweights[:, :dim, None])
             mtx_ix = mtx_ws.sum(axis=0)
             mtx_x = nm.linalg.inv(mtx_ix)
 
-- 
2.43.0


From 8d16b652259ad8a7a3b554c5868d99a36565a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:52 +0000
Subject: [PATCH 098/107] fix: nodal_combination conditions not containing some
 of the DOFs, with different free DOFs in equations

---
 sfepy/discrete/fem/lcbc_operators.py | 53 ++++++----------------------
 1 file changed, 11 insertions(+), 42 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 1e9fd70..09cf2a3 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -687,56 +687,25 @@ class NodalLCOperator(MRLCBCOperator):
 
             assert_(len(sol) == n_ceq)
 
-            imasters = []
-            ifixed = []
-            islaves = set()
-            ccs = []
-            for key, _poly in sol.items():
-                imaster = int(key.name[1:])
-                imasters.append(imaster)
-
-                if not isinstance(_poly, sm.Float):
-                    poly = _poly.as_poly()
-
-                    # Workaround for poly.all_coeffs() not applicable to
-                    # multivariate polynomials.
-                    coefs = []
-                    for ii, uu in enumerate(us):
-                        if poly.has(uu):
-                            coefs.append(poly.coeff_monomial(uu))
-                            islaves.add(ii)
-                    coefs.append(poly.TC())
-                    ccs.append(coefs)
-
-                else: # Degenerated constraint - fixed master.
-                    ifixed.append(imaster)
-                    ccs.append([float(_poly)])
-
-            islaves = sorted(islaves)
-
-            for ii, imaster in enumerate(imasters):
-                coefs = ccs[ii]
+            # Solution polynomials: master DOFs are expressed in terms of
+            # slave DOFs, that are the remaining DOFs in the node.
+            polys = {int(key.name[1:]) : sm.Poly(expr, *us)
+                     for key, expr in sol.items()}
+            islaves = [ii for ii in range(dpn) if ii not in polys]
 
+            for imaster, poly in polys.items():
                 em = dpn * im + imaster
-                rhss[em] = coefs[-1]
+                rhss[em] = poly.coeff_monomial(1)
 
-                if imaster in ifixed: continue
-
-                # Master DOF is expressed in terms of slave DOFs.
                 for ii, islave in enumerate(islaves):
-                    es = ii + n_new
-
                     rows.append(em)
-                    cols.append(es)
-                    data.append(coefs[ii])
+                    cols.append(ii + n_new)
+                    data.append(poly.coeff_monomial(us[islave]))
 
             # Slave DOFs are copied.
             for ii, islave in enumerate(islaves):
-                em = dpn * im + islave
-                es = ii + n_new
-
-                rows.append(em)
-                cols.append(es)
+                rows.append(dpn * im + islave)
+                cols.append(ii + n_new)
                 data.append(1.0)
 
             n_new += len(islaves)
-- 
2.43.0


From 858d6fa32bc0c3b9413b01eb62f563cac85e7bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:52 +0000
Subject: [PATCH 099/107] fix: linear combination conditions of nodes with
 periodic conditions

---
 sfepy/discrete/fem/lcbc_operators.py | 35 ++++++++++++++++++----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 09cf2a3..ce95e9f 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -4,6 +4,7 @@ setting.
 """
 import numpy as nm
 import scipy.sparse as sp
+from scipy.linalg import null_space
 
 from sfepy.base.base import (output, assert_, find_subclasses,
                              Container, Struct)
@@ -80,23 +81,33 @@ class MRLCBCOperator(LCBCOperator):
     def treat_pbcs(self, dofs, master):
         """
         Treat dofs with periodic BC.
+
+        The master and slave DOFs share equations: a single row is kept for
+        each equation, the row of a slave DOF, if available.
         """
-        master = nm.intersect1d(dofs, master)
-        if len(master) == 0: return
+        is_master = nm.isin(dofs, master)
+        if not is_master.any(): return
 
-        # Remove rows with master DOFs.
-        remove = nm.searchsorted(nm.sort(dofs), master)
-        keep = nm.setdiff1d(nm.arange(len(dofs)), remove)
+        order = nm.argsort(is_master, kind='stable')
+        _, ii, inv = nm.unique(self.ameq[order], return_index=True,
+                               return_inverse=True)
+        keep = nm.sort(order[ii])
+        if len(keep) == len(dofs): return
 
-        mtx = self.mtx[keep]
+        if not isinstance(self.mtx, sp.sparray):
+            # All rows of an equation have to give the same values.
+            diff = self.mtx[order] - self.mtx[order[ii[inv]]]
+            self.mtx = self.mtx @ null_space(diff)
+
+        self.ameq = self.ameq[keep]
+        if self.get('rhs', None) is not None:
+            self.rhs = self.rhs[keep]
 
         # Remove empty columns, update new DOF count.
-        mtx = mtx.tocsc()
-        indptr = nm.unique(mtx.indptr)
-        self.mtx = sp.csc_array((mtx.data, mtx.indices, indptr),
-                                shape=(mtx.shape[0], indptr.shape[0] - 1))
-        self.n_mdof = self.mtx.shape[0]
-        self.n_dof_new = self.mtx.shape[1]
+        mtx = self.mtx[keep]
+        used = nm.asarray(abs(mtx).sum(axis=0)).ravel() > 0.0
+        self.mtx = mtx[:, used]
+        self.n_mdof, self.n_new_dof = self.mtx.shape
 
 def _create_spin_matrix(coors):
     n_nod, dim = coors.shape
-- 
2.43.0


From 48c964c8e36b8f6796d15c17b63ca7d52483ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:53 +0000
Subject: [PATCH 100/107] fix: parallel DOF maps of tasks not connected to
 other tasks

---
 sfepy/parallel/parallel.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sfepy/parallel/parallel.py b/sfepy/parallel/parallel.py
index 1846cd0..9f8bc5b 100644
--- a/sfepy/parallel/parallel.py
+++ b/sfepy/parallel/parallel.py
@@ -170,7 +170,9 @@ def create_task_dof_maps(field, cell_tasks, inter_facets, is_overlap=True,
     inter_count = 0
     ocs = nm.zeros(0, dtype=nm.int32)
     cell_parts = []
-    for ir, ntasks in ordered_iteritems(inter_facets):
+    for ir in nm.unique(cell_tasks):
+        # Tasks not connected to other ones have no interface facets.
+        ntasks = inter_facets.get(ir, {})
         cells = nm.where(cell_tasks == ir)[0].astype(nm.int32)
         cell_parts.append(cells)
 
@@ -247,7 +249,12 @@ def create_task_dof_maps(field, cell_tasks, inter_facets, is_overlap=True,
 
         domain.regions.pop() # Remove the cell region.
 
-        inner_dofs = nm.setdiff1d(dofs, nm.concatenate(inter_dofs))
+        if len(inter_dofs):
+            inner_dofs = nm.setdiff1d(dofs, nm.concatenate(inter_dofs))
+
+        else:
+            inner_dofs = nm.unique(dofs)
+
         n_inner = len(inner_dofs)
         rdof_map[3] += n_inner
         assert_(nm.all(id_map[inner_dofs] == 0))
-- 
2.43.0


From 06724d86a4499ea4e2334260bad17d3d4c4bfaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:37 +0000
Subject: [PATCH 101/107] fix: evaluation of elevated IGA fields in given
 points

---
 sfepy/discrete/iga/fields.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/iga/fields.py b/sfepy/discrete/iga/fields.py
index 7e602f4..fe39172 100644
--- a/sfepy/discrete/iga/fields.py
+++ b/sfepy/discrete/iga/fields.py
@@ -271,7 +271,17 @@ class IGField(Field):
         Create a mesh with the original NURBS connectivity for evaluating the
         field. The mesh coordinates are the NURBS control points.
         """
-        return self.domain.eval_mesh
+        if self.nurbs is self.domain.nurbs:
+            return self.domain.eval_mesh
+
+        # The degree of the field NURBS is elevated.
+        from sfepy.discrete.fem import Mesh
+
+        nurbs = self.nurbs
+        desc = '%d_%d' % (self.domain.shape.dim, nurbs.conn.shape[1])
+        mat_id = nm.zeros(nurbs.conn.shape[0], dtype=nm.int32)
+        return Mesh.from_data(self.name + '_eval', nurbs.cps, None,
+                              [nurbs.conn], [mat_id], [desc])
 
     def create_basis_context(self):
         """
-- 
2.43.0


From a601bec007be04c28a13994464e97e27c32ee407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:37 +0000
Subject: [PATCH 102/107] fix: tensor product of rectangular matrices

---
 sfepy/discrete/iga/iga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/iga/iga.py b/sfepy/discrete/iga/iga.py
index 6c311e9..3a5985e 100644
--- a/sfepy/discrete/iga/iga.py
+++ b/sfepy/discrete/iga/iga.py
@@ -55,8 +55,8 @@ def tensor_product(a, b):
     n1 = b.shape[1]
     for ir in range(a.shape[0]):
         for ic in range(a.shape[1]):
-            c[n1 * ir : n1 * (ir + 1),
-              n0 * ic : n0 * (ic + 1)] = a[ir, ic] * b
+            c[n0 * ir : n0 * (ir + 1),
+              n1 * ic : n1 * (ic + 1)] = a[ir, ic] * b
 
     return c
 
-- 
2.43.0


From 326cf8d2f45f49b9f09a6cc049e3cb3e775f8575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:37 +0000
Subject: [PATCH 103/107] fix: the order of vertical edges of 3D Bezier
 elements

---
 sfepy/discrete/iga/iga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/iga/iga.py b/sfepy/discrete/iga/iga.py
index 3a5985e..fc2e72b 100644
--- a/sfepy/discrete/iga/iga.py
+++ b/sfepy/discrete/iga/iga.py
@@ -648,9 +648,9 @@ def get_bezier_element_entities(degrees):
                  aux[:, -1, -1],
                  aux[0, :, -1],
                  aux[0, 0, :],
-                 aux[0, -1, :],
+                 aux[-1, 0, :],
                  aux[-1, -1, :],
-                 aux[-1, 0, :]]
+                 aux[0, -1, :]]
         vertices = [aux[0, 0, 0],
                     aux[-1, 0, 0],
                     aux[-1, -1, 0],
-- 
2.43.0


From f17b4c5d6c974d9bf79c7929bf8c08958ea9fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:37 +0000
Subject: [PATCH 104/107] fix: reading of stored sparse matrices in another
 format

---
 sfepy/base/ioutils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index 9c84a04..3a1729f 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -421,9 +421,11 @@ def read_sparse_matrix_from_hdf5(fd, group, output_format=None):
         constructor = constructors[output_format]
 
     if format in ['csc', 'csr']:
-        mtx = constructor((data.data.read(),
-                           data.indices.read(), data.indptr.read()),
-                          shape=info.shape.read(), dtype=dtype)
+        # The data have the stored format.
+        mtx = constructors[format]((data.data.read(),
+                                    data.indices.read(), data.indptr.read()),
+                                   shape=info.shape.read(), dtype=dtype)
+        mtx = constructor(mtx)
     elif format == 'coo':
         mtx = constructor((data.data.read(),
                            nm.c_[data.rows.read(), data.cols.read()].T),
-- 
2.43.0


From 0193b07fc76be0a450ae979534d75eb86d3636de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:37 +0000
Subject: [PATCH 105/107] fix: imaginary numbers in option strings were parsed
 as real

---
 sfepy/base/parse_conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/base/parse_conf.py b/sfepy/base/parse_conf.py
index d18e1fe..c503dbe 100644
--- a/sfepy/base/parse_conf.py
+++ b/sfepy/base/parse_conf.py
@@ -45,7 +45,7 @@ cvt_real = lambda toks: float(toks[0])
 real.setParseAction(cvt_real)
 
 cmplx = real + CaselessLiteral('j')
-cvt_cmplx = lambda toks: complex(toks[0])
+cvt_cmplx = lambda toks: complex(0.0, toks[0])
 cmplx.setParseAction(cvt_cmplx)
 
 array_index = integer + Optional(colon + integer +
-- 
2.43.0


From 0d2970c48953c7e83950e76a8de69d99e417a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:47 +0000
Subject: [PATCH 106/107] fix: recursive updating of dictionaries ignored new
 values in tuples and overwrite_by_none

---
 sfepy/base/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfepy/base/base.py b/sfepy/base/base.py
index a761db6..602ab18 100644
--- a/sfepy/base/base.py
+++ b/sfepy/base/base.py
@@ -1177,19 +1177,21 @@ def update_dict_recursively(dst, src, tuples_too=False,
     """
     def tuplezip(a):
         if isinstance(a[0], dict) and isinstance(a[1], dict):
-            return update_dict_recursively(a[0], a[1], True)
+            return update_dict_recursively(a[0], a[1], True,
+                                           overwrite_by_none)
         return a[1]
 
     for key in src:
         if key in dst:
             if isinstance(src[key], dict) and isinstance(dst[key], dict):
                 dst[key] = update_dict_recursively(dst[key],
-                                                   src[key], tuples_too)
+                                                   src[key], tuples_too,
+                                                   overwrite_by_none)
                 continue
 
             if tuples_too and isinstance(dst[key], tuple) \
                    and isinstance(src[key], tuple):
-                out = map(tuplezip, zip(src[key], dst[key]))
+                out = map(tuplezip, zip(dst[key], src[key]))
                 out = tuple(out)
                 dst[key] = out[:len(dst[key])]
                 continue
-- 
2.43.0


From 2fc9b26337027d18c561d863e5e1ee73bd6474cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:09 +0000
Subject: [PATCH 107/107] fix: parallel tasks had different local cells of
 fields of different orders

---
 sfepy/parallel/parallel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sfepy/parallel/parallel.py b/sfepy/parallel/parallel.py
index 9f8bc5b..f4a56fc 100644
--- a/sfepy/parallel/parallel.py
+++ b/sfepy/parallel/parallel.py
@@ -2,6 +2,7 @@
 Functions for a high-level PETSc-based parallelization.
 """
 import os
+from functools import reduce
 
 import numpy as nm
 
@@ -493,6 +494,12 @@ def distribute_fields_dofs(fields, cell_tasks, is_overlap=True,
                          coffsets=nm.empty(size, dtype=nm.int32))
             gfds.append(gfd)
 
+        # The fields share local domains, so they need the same cells.
+        overlap_cells = [reduce(nm.union1d, ocs) for ocs
+                         in zip(*[gfd.overlap_cells for gfd in gfds])]
+        for gfd in gfds:
+            gfd.overlap_cells = overlap_cells
+
         # Initialize composite offsets of DOFs.
         if len(fields) > 1:
             # Renumber id_maps for field inter-leaving.
-- 
2.43.0

