From 5d4689b7d558d98a95a444b2b7f9cb060d97a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:08 +0000
Subject: [PATCH 01/41] fix: product continuation strategies discard the case
 list of an earlier run when initialised again

---
 beluga/continuation/continuation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 429d8b7..c2eb8a6 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -346,6 +346,7 @@ class ProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
 
         ls_set = [np.linspace(self.vars[var_name].value, self.vars[var_name].target,
                               self._num_subdivisions) for var_name in self.vars.keys()]
@@ -437,6 +438,7 @@ class SparseProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
             lower_bounds.append(sol.const[jj])
             upper_bounds.append(self.vars[var_name].target)
 
-- 
2.43.0


From 4c6c7a2edccd27d7072b52fa02cc4c85310aa0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:08 +0000
Subject: [PATCH 02/41] fix: resetting a bisection step forgets the
 subdivisions of the previous run

---
 beluga/continuation/continuation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index c2eb8a6..a4dcced 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -177,6 +177,7 @@ class ManualStrategy(ContinuationStrategy):
         """Resets the internal step counter to zero"""
         self.ctr = 0
         self.last_sol = None
+        self._num_cases = self.orig_num_cases
 
     def clear(self):
         """Clears all the previously set continuation variables"""
-- 
2.43.0


From 663ce2b37906b140b9afa91d65e4aa0ad8bca42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:02 +0000
Subject: [PATCH 03/41] fix: normalise coparameter and quadrature rates
 together with the states

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 2887a2b..1675626 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -698,7 +698,7 @@ class NormalizeTime(GenericFunctor):
                                         local_compiler=prob.local_compiler).sympify_self()
         prob.parameters.append(delta_t)
 
-        _dynamic_structs = [prob.states, prob.costates]
+        _dynamic_structs = [prob.states, prob.costates, prob.coparameters, prob.quads]
 
         for state in combine_component_lists(_dynamic_structs):
             state.eom = state.eom * delta_t.sym
-- 
2.43.0


From ee393fcd1c2eaadf120eb29b1194f71c066b41e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:23 +0000
Subject: [PATCH 04/41] fix: differential-geometric dualisation of problems
 with free parameters

---
 beluga/symbolic/data_classes/mapping_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 1675626..7febe20 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -355,13 +355,15 @@ class Dualize(GenericFunctor):
             for state, costate in zip(prob.states + prob.parameters, prob.costates + prob.coparameters):
                 costate.eom = -prob.hamiltonian.expr.diff(state.sym)
         elif self.method.lower() == 'diffyg':
-            state_syms = extract_syms(prob.states + prob.parameters)
-            costate_syms = extract_syms(prob.costates + prob.coparameters)
+            state_syms = extract_syms(prob.states)
+            costate_syms = extract_syms(prob.costates)
             omega = make_standard_symplectic_form(state_syms, costate_syms)
             chi_h = make_hamiltonian_vector_field(prob.hamiltonian.expr, omega, state_syms + costate_syms)
             costate_rates = chi_h[-len(prob.states):]
             for costate, rate in zip(prob.costates, costate_rates):
                 costate.eom = rate
+            for parameter, coparameter in zip(prob.parameters, prob.coparameters):
+                coparameter.eom = -prob.hamiltonian.expr.diff(parameter.sym)
             prob.omega = omega
 
             for idx, symmetry in enumerate(prob.symmetries):
-- 
2.43.0


From 4ac36daa02ed955791de4897a9fc04c3ad9218cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:51 +0000
Subject: [PATCH 05/41] fix: keep the costate of time apart from the control
 costates when mapping to the differential-geometric problem

---
 beluga/numeric/data_classes/trajectory_mappers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index ec8be83..e0000f5 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -250,7 +250,7 @@ class DifferentialControlMapperDiffyG(SolMapper):
         self.control_idxs = control_idxs
 
     def map(self, sol: Solution, control_costate: Union[float, np.ndarray] = 0.) -> Solution:
-        idx_u_list = []
+        idx_u_list, dual_u = [], []
 
         for idx_u, (idx_y, u) in enumerate(sorted(zip(self.control_idxs, sol.u.T))):
             sol.y = np.insert(sol.y, idx_y, u, axis=1)
@@ -262,14 +262,12 @@ class DifferentialControlMapperDiffyG(SolMapper):
             else:
                 costate_insert = control_costate * np.ones_like(sol.t)
 
-            sol.dual = np.insert(sol.dual, -1, costate_insert, axis=1)
-            if len(sol.dual_u) == 0:
-                sol.dual_u = np.array([costate_insert])
-            else:
-                sol.dual_u = np.insert(sol.dual_u, -1, costate_insert, axis=1)
+            sol.dual = np.insert(sol.dual, idx_y, costate_insert, axis=1)
+            dual_u.append(costate_insert)
 
             idx_u_list.append(idx_u)
 
+        sol.dual_u = np.array(dual_u).T
         sol.u = np.delete(sol.u, idx_u_list, axis=1)
         return sol
 
-- 
2.43.0


From e6c8f797c4e1fe78b790193465fc3f540d2ad6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:01 +0000
Subject: [PATCH 06/41] fix: reject inequality constraints with a missing bound
 instead of ignoring them

---
 beluga/symbolic/data_classes/mapping_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 7febe20..e1ceeb4 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -822,6 +822,8 @@ def make_direct_method(prob: Problem, analytical_jacobian=True, reduction=False,
             else:
                 raise NotImplementedError(
                     'Unknown path constraint method \"' + str(constraint.method) + '\"')
+        elif constraint.lower is not None or constraint.upper is not None or constraint in prob.constraints['path']:
+            raise NotImplementedError('An inequality constraint must have a lower and an upper bound')
 
     """
     Deal with staging, switches, and their substitutions.
@@ -883,6 +885,8 @@ def make_indirect_method(prob: Problem, analytical_jacobian=False, control_metho
             else:
                 raise NotImplementedError(
                     'Unknown path constraint method \"' + str(constraint.method) + '\"')
+        elif constraint.lower is not None or constraint.upper is not None or constraint in prob.constraints['path']:
+            raise NotImplementedError('An inequality constraint must have a lower and an upper bound')
 
     """
     Deal with staging, switches, and their substitutions.
-- 
2.43.0


From 4bcbca6eaeab4368b372f02506835664eff64299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:37 +0000
Subject: [PATCH 07/41] fix: units of the constant of motion of a symmetry are
 those of the cost per unit of the symmetry

---
 beluga/symbolic/differential_geometry/differential_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 72b5fc2..1339157 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -188,7 +188,7 @@ def noether(prob, quantity):
         for jj, state in enumerate(prob.states + prob.costates):
             gstar += sympy.integrate(omega_chi[jj], state.sym)
 
-        unit = prob.constants_of_motion[0].units / quantity.units
+        unit = prob.cost.units / quantity.units
 
         return gstar, unit
 
-- 
2.43.0


From 01ecf8b208aab290e779bba5d6ca75bdd037d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:37 +0000
Subject: [PATCH 08/41] fix: rewrite scale expressions that mention states
 removed by a symmetry reduction

---
 beluga/symbolic/data_classes/mapping_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index e1ceeb4..7f7f473 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -610,6 +610,10 @@ class MishchenkoFomenko(GenericFunctor):
                 com.expr, _ = recursive_sub(com.expr, solve_for_p[0])
                 com.expr, _ = recursive_sub(com.expr, solve_for_q[0])
 
+        for unit in prob.units:
+            unit.expr, _ = recursive_sub(unit.expr, solve_for_p[0])
+            unit.expr, _ = recursive_sub(unit.expr, solve_for_q[0])
+
         remove_parameter = states_and_costates[parameter_index]
         remove_symmetry = states_and_costates[symmetry_index]
 
-- 
2.43.0


From 622a450bda75b18c544653c0e7b43856455e5400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:33 +0000
Subject: [PATCH 09/41] fix: table data types no longer use the removed
 numpy.float alias

---
 beluga/symbolic/data_classes/components_structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index 334a772..a6e3bd8 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -234,8 +234,8 @@ class TableStruct(CallableStruct):
                  dim_consistent=False, local_compiler=None):
 
         self.table_type = table_type
-        self.data = np.array(data, dtype=np.float)
-        self.arg_data = np.array(arg_data, dtype=np.float)
+        self.data = np.array(data, dtype=float)
+        self.arg_data = np.array(arg_data, dtype=float)
         self.dim_consistent = dim_consistent
 
         # TODO Add checks for size of data, arg_data consistent with type
-- 
2.43.0


From 81f031a8e6bea51e329ac5ddc8bb8586085fc781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:33 +0000
Subject: [PATCH 10/41] fix: reject a constraint parameter whose name is
 already used

---
 beluga/symbolic/data_classes/symbolic_problem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beluga/symbolic/data_classes/symbolic_problem.py b/beluga/symbolic/data_classes/symbolic_problem.py
index 08bedbd..a766581 100644
--- a/beluga/symbolic/data_classes/symbolic_problem.py
+++ b/beluga/symbolic/data_classes/symbolic_problem.py
@@ -134,6 +134,7 @@ class Problem:
         return self
 
     def constraint_parameter(self, name, units):
+        self.check_for_duplicate(name)
         self.constraint_parameters.append(NamedDimensionalStruct(name, units, local_compiler=self.local_compiler))
         return self
 
-- 
2.43.0


From 59085d1181f99897f6c9747e325d5faf4af67bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:39 +0000
Subject: [PATCH 11/41] fix: a save that cannot be serialised no longer
 destroys the existing file

---
 beluga/utils/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beluga/utils/storage.py b/beluga/utils/storage.py
index f71d169..0031a55 100644
--- a/beluga/utils/storage.py
+++ b/beluga/utils/storage.py
@@ -14,8 +14,10 @@ def save(sol_set=None, ocp=None, bvp=None, filename='data.beluga'):
     if bvp is not None:
         save_dict['bvp'] = bvp
 
+    data = pickle.dumps(save_dict)
+
     with open(filename, 'wb') as file:
-        pickle.dump(save_dict, file)
+        file.write(data)
 
 
 def load(filename):
-- 
2.43.0


From f11a282c7edb8abf5eed818e73fdec097a683863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:47 +0000
Subject: [PATCH 12/41] fix: evaluate tables at and beyond the ends of their
 data with the end segments

---
 beluga/symbolic/special_functions/tables.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 80d69c7..12fa129 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -102,10 +102,11 @@ class TableSpline1D(object):
     def form_eval_function(self, order):
         data_x = self.data_x
         coeff_set = self.coeff
+        last = len(data_x) - 1
 
         if order == 0:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -113,7 +114,7 @@ class TableSpline1D(object):
 
         elif order == 1:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -121,7 +122,7 @@ class TableSpline1D(object):
 
         elif order == 2:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -129,7 +130,7 @@ class TableSpline1D(object):
 
         elif order == 3:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 return 6*(coeff[0] - coeff[1])
 
-- 
2.43.0


From 257574fb1eb91353bbe1dbc66c98e42ca1eb6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:47 +0000
Subject: [PATCH 13/41] fix: custom functions survive substitution in their
 arguments, composite arguments and pickling

Derivative names were built from the text of the arguments, so the derivative of f(x + v) had a name that
is not an identifier, and the instance attributes were lost whenever sympy or pickle rebuilt the call.
---
 .../special_functions/custom_functions.py     | 85 +++++++++++--------
 1 file changed, 48 insertions(+), 37 deletions(-)

diff --git a/beluga/symbolic/special_functions/custom_functions.py b/beluga/symbolic/special_functions/custom_functions.py
index 497c351..8c34bfb 100644
--- a/beluga/symbolic/special_functions/custom_functions.py
+++ b/beluga/symbolic/special_functions/custom_functions.py
@@ -44,31 +44,39 @@ class CustomFunctionGenerator(object):
 
 
 class CustomFunctionMeta(Function):
-    def __new__(cls, base_name, base_func, arg_list):
-        obj = super(CustomFunctionMeta, cls).__new__(cls, *arg_list)
-        obj.nargs = (len(arg_list),)
-        obj.arg_list = tuple(arg_list)
-        obj.base_name = base_name
-        if type(base_func) is CPUDispatcher:
-            obj.base_func = base_func
-        else:
-            obj.base_func = jit_compile_func(base_func, arg_list)
+    """Base of the classes made for each custom function; calling such a class rebuilds it on other arguments."""
+    base_name = None
+    base_func = None
+    eval_func = None
+    local_compiler = None
+    order = ()
+    deriv_method = 'c_diff'
 
-        return obj
+    @property
+    def arg_list(self):
+        return self.args
 
     def __deepcopy__(self, memodict=None):
         return self
 
+    def __reduce_ex__(self, protocol):
+        return CustomFunction, (self.base_name, self.base_func, self.args, self.local_compiler, self.order,
+                                self.deriv_method)
+
+    def _eval_evalf(self, prec):
+        # sympy would otherwise evaluate the mpmath function that happens to have the same name
+        return None
+
     @property
     def _diff_wrt(self):
         return True
 
     def fdiff(self, argindex=1):
-        if argindex <= self.nargs[0]:
+        if argindex <= len(self.args):
             order = list(self.order)
             order[argindex - 1] += 1
-            return CustomFunction(self.base_name, self.base_func, self.arg_list,
-                                  order=tuple(order), local_compiler=self.local_compiler)
+            return CustomFunction(self.base_name, self.base_func, self.args, local_compiler=self.local_compiler,
+                                  order=tuple(order), deriv_method=self.deriv_method)
         else:
             raise ArgumentIndexError(self, argindex)
 
@@ -79,19 +87,24 @@ class CustomFunction(Function):
         cls.check_args(arg_list, base_func)
 
         if order is None:
-            order = ([0 for _ in range(len(arg_list))])
+            order = tuple([0 for _ in range(len(arg_list))])
+
+        if type(base_func) is not CPUDispatcher:
+            base_func = jit_compile_func(base_func, arg_list)
 
-        name = cls.construct_name(base_name, arg_list, order)
-        obj = type(name, (CustomFunctionMeta,), {})(name, base_func, arg_list)
+        name = cls.construct_name(base_name, order)
         if sum(order) == 0:
-            obj.eval_func = base_func
+            eval_func = base_func
         else:
-            obj.eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.eval_func)
-        obj.order = order
-        return obj
+            eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
+
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, eval_func)
+
+        func_class = type(name, (CustomFunctionMeta,), {
+            'base_name': base_name, 'base_func': staticmethod(base_func), 'eval_func': staticmethod(eval_func),
+            'local_compiler': local_compiler, 'order': tuple(order), 'deriv_method': deriv_method})
+        return func_class(*arg_list)
 
     @staticmethod
     def check_args(arg_list, base_func):
@@ -102,25 +115,23 @@ class CustomFunction(Function):
                               .format(base_func.__name__))
 
     @staticmethod
-    def construct_name(func_name, arg_list, order):
+    def construct_name(func_name, order):
+        """Name of a derivative, by the positions of the arguments it is taken with respect to."""
         total_order = sum(order)
 
-        post = '_'
-        for arg_k, order_k in zip(arg_list, order):
-            if order_k == 0:
-                pass
-            elif order_k == 1:
-                post += 'd' + str(arg_k)
-            else:
-                post += 'd' + str(arg_k) + str(order_k)
-
         if total_order == 0:
-            pre = ''
-            post = ''
-        elif total_order == 1:
+            return func_name
+
+        post = ''
+        for idx, order_k in enumerate(order):
+            if order_k > 0:
+                post += '_d' + str(idx + 1)
+            if order_k > 1:
+                post += 'o' + str(order_k)
+
+        if total_order == 1:
             pre = 'd'
         else:
             pre = 'd' + str(total_order)
 
         return pre + func_name + post
-
-- 
2.43.0


From c86e1a4f3972d5ee1ef8fb81155dc417a3644526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:47 +0000
Subject: [PATCH 14/41] fix: tables survive substitution in their argument,
 composite arguments and pickling

---
 beluga/symbolic/special_functions/tables.py | 43 ++++++++++-----------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 12fa129..de3de6a 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -22,13 +22,11 @@ class SymTableGenerator(object):
 
 
 class SymTableMeta(Function):
-    def __new__(cls, table, arg, local_compiler=None):
-        obj = super(SymTableMeta, cls).__new__(cls, arg)
-        obj.nargs = (1,)
-        obj.order = 0
-        obj.table = table
-        obj.local_compiler = local_compiler
-        return obj
+    """Base of the classes made for each table; calling such a class rebuilds it on another argument."""
+    table = None
+    table_func = None
+    local_compiler = None
+    order = 0
 
     @property
     def _diff_wrt(self):
@@ -43,30 +41,29 @@ class SymTableMeta(Function):
     def __deepcopy__(self, memodict=None):
         return self
 
+    def __reduce_ex__(self, protocol):
+        return SymTable, (self.table, self.args[0], self.local_compiler, self.order)
+
 
 class SymTable(SymTableMeta):
     def __new__(cls, table, arg, local_compiler=None, order=0):
-        name = cls.construct_name(str(table), str(arg), order)
-        obj = type(name, (SymTableMeta,), {})(table, arg, local_compiler=local_compiler)
-        obj.table_func = table.form_eval_function(order)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.table_func)
-        obj.order = order
-        return obj
+        name = cls.construct_name(str(table), order)
+        table_func = table.form_eval_function(order)
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, table_func)
+
+        table_class = type(name, (SymTableMeta,), {
+            'table': table, 'table_func': staticmethod(table_func), 'local_compiler': local_compiler, 'order': order})
+        return table_class(arg)
 
     @staticmethod
-    def construct_name(table_name, arg_name, order):
+    def construct_name(table_name, order):
         if order == 0:
-            pre = ''
-            post = ''
+            return table_name
         elif order == 1:
-            pre = 'd'
-            post = '_d' + arg_name
+            return 'd' + table_name
         else:
-            pre = 'd' + str(order)
-            post = '_d' + arg_name + str(order)
-        return pre + table_name + post
+            return 'd' + str(order) + table_name
 
 
 class TableSpline1D(object):
-- 
2.43.0


From f3b29bb7270e0e642503557dea151aab044c04c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:29 +0000
Subject: [PATCH 15/41] fix: a switch segment is active only where all of its
 conditions hold

The gates of the conditions of a segment were added up, so that a segment with two conditions counted twice
where both hold and once where only one does.
---
 beluga/symbolic/data_classes/components_structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index a6e3bd8..8188989 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -275,9 +275,9 @@ class SwitchStruct(NamedStruct):
         # Make switching function using RASHS
         self.sym_func = sympy.Integer(0)
         for function, conditions_for_function in zip(self.functions, self.conditions):
-            rashs_mult = sympy.Integer(0)
+            rashs_mult = sympy.Integer(1)
             for condition in conditions_for_function:
-                rashs_mult += 1/(1 + sympy.exp(condition / self.tol_param))
+                rashs_mult *= 1/(1 + sympy.exp(condition / self.tol_param))
             self.sym_func += rashs_mult*function
 
         return self
-- 
2.43.0


From 611cae5f8d5765beb55f3e40a56ac0f41327d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:43 +0000
Subject: [PATCH 16/41] fix: shooting with the scipy algorithms judges
 convergence by the residual at the solution

fsolve judged the initial guess, the root finders compared a vector with a number and raised, the constrained
minimisers judged the value of a constant cost, and COBYLA reports no iteration count.
---
 beluga/numeric/bvp_solvers/Shooting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 2d1eb2b..6c60703 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -680,23 +680,23 @@ class Shooting(BaseAlgorithm):
             opt = minimize(cost, x_init, method=self.algorithm, tol=self.tolerance, constraints=constraint,
                            options={'maxiter': self.max_iterations})
 
-            err = opt.fun
             x_init = opt.x
-            n_iter = opt.nit
-            converged = opt.success and isclose(err, 0, abs_tol=self.tolerance)
+            err = np.linalg.norm(_constraint_function_wrapper(x_init))**2
+            n_iter = opt.get('nit', -1)
+            converged = bool(opt.success) and isclose(err, 0, abs_tol=self.tolerance)
 
         elif self.algorithm in scipy_root_algorithms:
             opt = root(_constraint_function_wrapper, x_init, jac=_jacobian_function_wrapper, method=self.algorithm,
                        tol=self.tolerance, options={'maxiter': self.max_iterations})
-            err = opt.fun
             x_init = opt.x
+            err = np.linalg.norm(_constraint_function_wrapper(x_init))**2
             n_iter = -1
-            converged = opt.success
+            converged = bool(opt.success) and isclose(err, 0, abs_tol=self.tolerance)
 
         elif self.algorithm.lower() == 'fsolve':
             x = fsolve(_constraint_function_wrapper, x_init, fprime=_jacobian_function_wrapper, xtol=self.tolerance)
-            err = np.linalg.norm(_constraint_function_wrapper(x_init))**2
             x_init = x
+            err = np.linalg.norm(_constraint_function_wrapper(x_init))**2
             n_iter = -1
             converged = isclose(err, 0, abs_tol=self.tolerance)
 
-- 
2.43.0


From 23b80a28919418672ffd6c9f5b3111e9ee3e0720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:43 +0000
Subject: [PATCH 17/41] fix: shooting with a pool of processes passed the
 control guess to the equations of motion

---
 beluga/numeric/bvp_solvers/Shooting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 6c60703..1502b49 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -284,13 +284,13 @@ class Shooting(BaseAlgorithm):
             u0g[ii] = _u0g
 
         def preload(args):
-            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2], args[3],
+            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2],
                         dyn_param, sol.const)
 
         if pool is not None:
-            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g, u0g))
+            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g))
         else:
-            gamma_set_new = [preload([T, Y, Q, U]) for T, Y, Q, U in zip(tspan, y0g, q0g, u0g)]
+            gamma_set_new = [preload([T, Y, Q]) for T, Y, Q in zip(tspan, y0g, q0g)]
 
         if n_arcs > 1 and nquads > 0:
             for ii in range(n_arcs - 1):
-- 
2.43.0


From 0693f60308862b3122730715a46acd4a49241395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:43 +0000
Subject: [PATCH 18/41] fix: solving from a guess without quadratures no longer
 discards the solver's quadrature function

---
 beluga/numeric/bvp_solvers/SPBVP.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/SPBVP.py b/beluga/numeric/bvp_solvers/SPBVP.py
index 6a982a3..1f34b36 100644
--- a/beluga/numeric/bvp_solvers/SPBVP.py
+++ b/beluga/numeric/bvp_solvers/SPBVP.py
@@ -30,14 +30,8 @@ class SPBVP(BaseAlgorithm):
 
         nquads = 0
 
-        def return_nil(*_, **__):
-            return np.array([])
-
         if solinit.q.size > 0:
             nquads = solinit.q.shape[1]
-        else:
-            nquads = 0
-            self.quadrature_function = return_nil
 
         ndyn = solinit.dynamical_parameters.size
         nnondyn = solinit.nondynamical_parameters.size
-- 
2.43.0


From c2436ca7bd88be2fdc62237d09dae504a6fe0ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:20 +0000
Subject: [PATCH 19/41] fix: analytic Jacobians of problems without dynamic
 parameters are complete

---
 beluga/symbolic/data_classes/mapping_functions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 7f7f473..2a1847d 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -752,10 +752,13 @@ class ComputeAnalyticalJacobians(GenericFunctor):
         prob.bc_jac['initial']['dbc_dy'] = phi_0.jacobian(states)
         prob.bc_jac['terminal']['dbc_dy'] = phi_f.jacobian(states)
 
-        if len(parameters) > 0:
-            prob.func_jac.update({'df_dp': eom.jacobian(dynamic_parameters)})
-            prob.bc_jac['initial']['dbc_dp'] = phi_0.jacobian(parameters)
-            prob.bc_jac['terminal']['dbc_dp'] = phi_f.jacobian(parameters)
+        # There is nothing to differentiate with respect to when there are no parameters: the Jacobian has no columns
+        def jacobian(expr, params):
+            return expr.jacobian(params) if len(params) > 0 else sympy.zeros(len(expr), 0)
+
+        prob.func_jac['df_dp'] = jacobian(eom, dynamic_parameters)
+        prob.bc_jac['initial']['dbc_dp'] = jacobian(phi_0, parameters)
+        prob.bc_jac['terminal']['dbc_dp'] = jacobian(phi_f, parameters)
 
         if len(quads) > 0:
             prob.bc_jac['initial']['dbc_dq'] = phi_0.jacobian(quads)
-- 
2.43.0


From c1f2d99c5614da8c3135840680021c899bd0df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:20 +0000
Subject: [PATCH 20/41] fix: collocation with analytic Jacobians handles
 quadratures and problems without parameters

---
 beluga/numeric/bvp_solvers/SPBVP.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/SPBVP.py b/beluga/numeric/bvp_solvers/SPBVP.py
index 1f34b36..7b81a40 100644
--- a/beluga/numeric/bvp_solvers/SPBVP.py
+++ b/beluga/numeric/bvp_solvers/SPBVP.py
@@ -57,7 +57,8 @@ class SPBVP(BaseAlgorithm):
                                                        yb[nstates:nstates+nquads], params[:ndyn],
                                                        params[ndyn:ndyn+nnondyn], const)
 
-        if self.derivative_function_jac is not None:
+        # The Jacobian of the quadratures is not available: the collocation solver estimates it when there are any
+        if self.derivative_function_jac is not None and nquads == 0:
             def _fun_jac(t, y, params=np.array([]), const=solinit.const):
                 y = y.T
                 df_dy = np.zeros((y[0].size, y[0].size, t.size))
@@ -78,17 +79,20 @@ class SPBVP(BaseAlgorithm):
             _fun_jac = None
 
         if self.boundarycondition_function_jac is not None:
-            if nquads > 0:
-                def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
-                    dbc_dya, dbc_dyb, dbc_dp = \
+            def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
+                if nquads > 0:
+                    dbc_dya, dbc_dyb, dbc_dp, dbc_dqa, dbc_dqb = \
                         self.boundarycondition_function_jac(ya[:nstates], ya[nstates:nstates+nquads], yb[:nstates],
                                                             yb[nstates:nstates+nquads], params[:ndyn],
                                                             params[ndyn:ndyn+nnondyn], const)
-                    return dbc_dya, dbc_dyb, dbc_dp
-            else:
-                def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
+                    dbc_dya, dbc_dyb = np.hstack((dbc_dya, dbc_dqa)), np.hstack((dbc_dyb, dbc_dqb))
+                else:
                     dbc_dya, dbc_dyb, dbc_dp = \
                         self.boundarycondition_function_jac(ya, yb, params[:ndyn], params[ndyn:ndyn+nnondyn], const)
+
+                if ndyn + nnondyn == 0:
+                    return dbc_dya, dbc_dyb
+                else:
                     return dbc_dya, dbc_dyb, dbc_dp
         else:
             _bc_jac = None
-- 
2.43.0


From 1a4509ba574396aaa69f8dba1bf9e00736f3ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:53 +0000
Subject: [PATCH 21/41] fix: symmetry reduction works with an algebraic control
 law

---
 beluga/symbolic/data_classes/mapping_functions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 2a1847d..9c81cf1 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -598,12 +598,13 @@ class MishchenkoFomenko(GenericFunctor):
             bc.expr, _ = recursive_sub(bc.expr, solve_for_p[0])
             bc.expr, _ = recursive_sub(bc.expr, solve_for_q[0])
 
-        for idx, law in enumerate(prob.control_law):
-            for jj, symbol in enumerate(law.keys()):
-                prob.control_law[idx][symbol], _ = recursive_sub(prob.sympify(law[symbol]), solve_for_p[0])
-                # prob.control_law[idx][symbol] = law[symbol]
-                prob.control_law[idx][symbol], _ = recursive_sub(prob.sympify(law[symbol]), solve_for_q[0])
-                # prob.control_law[idx][symbol] = law[symbol]
+        def reduce_expr(expr):
+            expr, _ = recursive_sub(expr, solve_for_p[0])
+            expr, _ = recursive_sub(expr, solve_for_q[0])
+            return expr
+
+        prob.control_law = [tuple(reduce_expr(expr) for expr in law) for law in prob.control_law]
+        prob.hamiltonian.expr = reduce_expr(prob.hamiltonian.expr)
 
         for idx, com in enumerate(prob.constants_of_motion):
             if idx != self.com_index:
-- 
2.43.0


From 79f38e30ba6128d65caf1bec52e0fa24e8196d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:53 +0000
Subject: [PATCH 22/41] fix: quick reconstruction evaluates the quadrature
 rates with their own arguments

---
 beluga/numeric/ivp_solvers/ivpsol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index 4f2ddfa..f143b15 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -96,7 +96,8 @@ class Propagator(Algorithm):
 
         if quad_func is not None and len(q0) != 0:
             if self.quick_reconstruct:
-                qf = integrate_quads(quad_func, tspan, gamma, *args)
+                dq = np.array([quad_func(y, *args) for y in gamma.y])
+                qf = simpson(dq.T, x=gamma.t)
                 gamma.q = np.vstack((q0, np.zeros((len(gamma.t)-2, len(q0))), qf+q0))
             else:
                 gamma = reconstruct(quad_func, gamma, q0, *args)
-- 
2.43.0


From 28b03b74de5b15fff84555d51da69d51805d5261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:53 +0000
Subject: [PATCH 23/41] fix: fixed-step propagation goes backwards and never
 past the end of the time span

---
 beluga/numeric/ivp_solvers/ivpsol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index f143b15..0a9c5d9 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -84,9 +84,9 @@ class Propagator(Algorithm):
                 int_sol = solve_ivp(lambda t, _y: eom_func(_y, *args), [tspan[0], tspan[-1]], y0,
                                     rtol=self.reltol, atol=self.abstol, max_step=self.maxstep, method=self.stepper)
             else:
-                T = np.arange(tspan[0], tspan[-1], self.maxstep)
-                if T[-1] != tspan[-1]:
-                    T = np.hstack((T, tspan[-1]))
+                n_steps = max(1, int(np.ceil(abs(tspan[-1] - tspan[0])/self.maxstep - 1e-9)))
+                step = np.sign(tspan[-1] - tspan[0])*self.maxstep
+                T = np.hstack((tspan[0] + step*np.arange(n_steps), tspan[-1]))
                 int_sol = solve_ivp(lambda t, _y: eom_func(_y, *args), [tspan[0], tspan[-1]], y0,
                                     rtol=self.reltol, atol=self.abstol, method=self.stepper, t_eval=T)
             gamma = Trajectory(int_sol.t, int_sol.y.T)
-- 
2.43.0


From 9aead35059925cec477cc2e8ab8e65064ca2e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:53 +0000
Subject: [PATCH 24/41] fix: a trajectory keeps its interpolation function when
 wrapped again

---
 beluga/numeric/data_classes/Trajectory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/numeric/data_classes/Trajectory.py b/beluga/numeric/data_classes/Trajectory.py
index 55ef062..cc609f7 100644
--- a/beluga/numeric/data_classes/Trajectory.py
+++ b/beluga/numeric/data_classes/Trajectory.py
@@ -162,9 +162,11 @@ class Trajectory(object):
         :param func: FunctionComponent for interpolation or a string for SciPy's interp1d(kind=func).
         """
         if callable(func):
+            self.interpolation_type = func
             self.interpolate = func
         elif isinstance(func, str):
             func = func.lower()
+            self.interpolation_type = func
             self.interpolate = lambda t, y: scipy.interpolate.interp1d(t, y, kind=func)
 
     def __getitem__(self, item):
-- 
2.43.0


From 6b9c7a2957b98bda967e2e2792501189eee90620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:36 +0000
Subject: [PATCH 25/41] fix: a static guess is not modified by generating from
 it

---
 beluga/continuation/guess_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index 25b1139..a4a1ae8 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -69,7 +69,7 @@ class GuessGenerator(object):
 
     def static(self, bvp_fn, solinit, ocp_map, ocp_map_inverse):
         """Directly specify initial guess structure"""
-        return ocp_map(self.solinit)
+        return ocp_map(copy.deepcopy(self.solinit))
 
     def setup_auto(self, start=None, direction='forward', time_integrate=1, quad_guess=np.array([]), costate_guess=0.1,
                    control_guess=0.1, use_control_guess=False, param_guess=None):
-- 
2.43.0


From 2e80a216a23f562ba91dfd91eaf600584091307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:36 +0000
Subject: [PATCH 26/41] fix: the guess covers the parameters of the problem and
 honours param_guess

---
 beluga/beluga.py                        |  1 +
 beluga/continuation/guess_generators.py | 30 +++++++++++++++----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/beluga/beluga.py b/beluga/beluga.py
index e56b641..e929fa7 100755
--- a/beluga/beluga.py
+++ b/beluga/beluga.py
@@ -160,6 +160,7 @@ def solve(
 
     solinit = Trajectory()
     solinit.const = np.array(getattr_from_list(bvp.constants, 'default_val'))
+    solinit.dynamical_parameters = np.ones(len(ocp.parameters))
     solinit = guess_generator.generate(bvp.functional_problem, solinit, ocp_map, ocp_map_inverse)
 
     if initial_helper:
diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index a4a1ae8..ca64387 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -116,13 +116,16 @@ class GuessGenerator(object):
         else:
             u0 = self.control_guess
 
-        # Guess zeros for missing parameters
+        # Guess ones for missing parameters
         if param_guess is None:
-            param_guess = np.ones(len(solinit.dynamical_parameters))
-        elif len(param_guess) < len(solinit.dynamical_parameters):
-            param_guess += np.ones(len(solinit.dynamical_parameters) - len(param_guess))
-        elif len(param_guess) > len(solinit.dynamical_parameters):
-            raise ValueError('param_guess too big. Maximum width allowed is ' + str(len(solinit.aux['parameters'])))
+            param_guess = self.param_guess
+        n_parameters = len(solinit.dynamical_parameters)
+        if param_guess is None:
+            param_guess = np.ones(n_parameters)
+        elif len(param_guess) < n_parameters:
+            param_guess = np.hstack((param_guess, np.ones(n_parameters - len(param_guess))))
+        elif len(param_guess) > n_parameters:
+            raise ValueError('param_guess too big. Maximum width allowed is ' + str(n_parameters))
         nondynamical_param_guess = np.ones(len(solinit.nondynamical_parameters))
 
         logging.debug('Generating initial guess by propagating: ')
@@ -195,13 +198,16 @@ class GuessGenerator(object):
         else:
             u0 = self.control_guess
 
-        # Guess zeros for missing parameters
+        # Guess ones for missing parameters
+        if param_guess is None:
+            param_guess = self.param_guess
+        n_parameters = len(solinit.dynamical_parameters)
         if param_guess is None:
-            param_guess = np.ones(len(solinit.dynamical_parameters))
-        elif len(param_guess) < len(solinit.dynamical_parameters):
-            param_guess += np.ones(len(solinit.dynamical_parameters) - len(param_guess))
-        elif len(param_guess) > len(solinit.dynamical_parameters):
-            raise ValueError('param_guess too big. Maximum width allowed is ' + str(len(solinit.aux['parameters'])))
+            param_guess = np.ones(n_parameters)
+        elif len(param_guess) < n_parameters:
+            param_guess = np.hstack((param_guess, np.ones(n_parameters - len(param_guess))))
+        elif len(param_guess) > n_parameters:
+            raise ValueError('param_guess too big. Maximum width allowed is ' + str(n_parameters))
         nondynamical_param_guess = np.ones(len(solinit.nondynamical_parameters))
 
         logging.debug('Generating initial guess by propagating: ')
-- 
2.43.0


From ee515952770d84532f5019c9a4e50aea33f55613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:36 +0000
Subject: [PATCH 27/41] fix: a scalar control guess is used for every control

---
 beluga/beluga.py                        | 1 +
 beluga/continuation/guess_generators.py | 9 ++++-----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/beluga/beluga.py b/beluga/beluga.py
index e929fa7..a540e8c 100755
--- a/beluga/beluga.py
+++ b/beluga/beluga.py
@@ -160,6 +160,7 @@ def solve(
 
     solinit = Trajectory()
     solinit.const = np.array(getattr_from_list(bvp.constants, 'default_val'))
+    solinit.u = np.zeros((1, len(ocp.controls)))
     solinit.dynamical_parameters = np.ones(len(ocp.parameters))
     solinit = guess_generator.generate(bvp.functional_problem, solinit, ocp_map, ocp_map_inverse)
 
diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index ca64387..6a0f27a 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -34,7 +34,6 @@ class GuessGenerator(object):
                                'static': self.static,
                                'ones': self.ones}
         self.setup(**kwargs)
-        self.dae_num_states = 0
 
         self.mode = 'auto'
         self.solinit = None
@@ -111,8 +110,8 @@ class GuessGenerator(object):
         else:
             d0 = np.r_[self.costate_guess]
 
-        if isinstance(self.control_guess, float) or isinstance(self.control_guess, float):
-            u0 = self.control_guess*np.ones(self.dae_num_states)
+        if isinstance(self.control_guess, float) or isinstance(self.control_guess, int):
+            u0 = self.control_guess*np.ones(solinit.u.shape[-1])
         else:
             u0 = self.control_guess
 
@@ -193,8 +192,8 @@ class GuessGenerator(object):
         else:
             d0 = np.r_[self.costate_guess]
 
-        if isinstance(self.control_guess, float) or isinstance(self.control_guess, float):
-            u0 = self.control_guess * np.ones(self.dae_num_states)
+        if isinstance(self.control_guess, float) or isinstance(self.control_guess, int):
+            u0 = self.control_guess*np.ones(solinit.u.shape[-1])
         else:
             u0 = self.control_guess
 
-- 
2.43.0


From 6dee2fc8583ceb02b856434324daffbd098512b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:36 +0000
Subject: [PATCH 28/41] fix: settings given when a guess generator is created
 are not reset

---
 beluga/continuation/guess_generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index 6a0f27a..c289b0b 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -33,8 +33,6 @@ class GuessGenerator(object):
         self.generate_funcs = {'auto': self.auto,
                                'static': self.static,
                                'ones': self.ones}
-        self.setup(**kwargs)
-
         self.mode = 'auto'
         self.solinit = None
         self.direction = 'forward'
@@ -46,6 +44,8 @@ class GuessGenerator(object):
         self.control_guess = None
         self.use_control_guess = False
 
+        self.setup(**kwargs)
+
     def setup(self, mode='auto', **kwargs):
         """Sets up the initial guess generation process"""
         self.mode = mode
-- 
2.43.0


From 04ce221c4d6dbe83aca68853ad3134eff71ee59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:34 +0000
Subject: [PATCH 29/41] fix: the costates of parameters are kept apart from the
 quadratures of a trajectory

---
 beluga/numeric/data_classes/Trajectory.py         |  1 +
 beluga/numeric/data_classes/trajectory_mappers.py | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/beluga/numeric/data_classes/Trajectory.py b/beluga/numeric/data_classes/Trajectory.py
index cc609f7..a2bd98d 100644
--- a/beluga/numeric/data_classes/Trajectory.py
+++ b/beluga/numeric/data_classes/Trajectory.py
@@ -34,6 +34,7 @@ class Trajectory(object):
         obj.u = np.array([])
         obj.dual_u = np.array([])
         obj.dynamical_parameters = np.array([])
+        obj.dual_parameters = np.array([])
         obj.nondynamical_parameters = np.array([])
         obj.const = np.array([])
         obj.converged = False
diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index e0000f5..b8067f4 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -354,11 +354,21 @@ class SquashToBVPMapper(SolMapper):
         if len(sol.dual) > 0:
             sol.y = np.concatenate((sol.y, sol.dual), axis=1)
 
+        n_coparameters = self.coparameter_idxs.stop - self.coparameter_idxs.start
+        if n_coparameters > 0:
+            if len(sol.dual_parameters) == 0:
+                sol.dual_parameters = np.zeros((len(sol.t), n_coparameters))
+            q = np.reshape(sol.q, (len(sol.t), -1))
+            sol.q = np.concatenate((q, sol.dual_parameters), axis=1)
+
         return sol
 
     def inv_map(self, sol: Solution) -> Solution:
         sol.dual = sol.y[:, self.costate_idxs]
         sol.y = np.delete(sol.y, self.costate_idxs, axis=1)
+        if self.coparameter_idxs.stop > self.coparameter_idxs.start:
+            sol.dual_parameters = sol.q[:, self.coparameter_idxs]
+            sol.q = np.delete(sol.q, self.coparameter_idxs, axis=1)
         sol.nondynamical_parameters = np.delete(sol.nondynamical_parameters, self.constraint_adjoints_idxs)
 
         return sol
-- 
2.43.0


From 8c7b687bc753141ccedeb97dc5b27f6cf6b6a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:20 +0000
Subject: [PATCH 30/41] fix: the display level is honoured when no log file is
 requested

---
 beluga/utils/logging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beluga/utils/logging.py b/beluga/utils/logging.py
index 73e4840..b985a2c 100644
--- a/beluga/utils/logging.py
+++ b/beluga/utils/logging.py
@@ -10,7 +10,9 @@ def root():
 
 def init_logging(display_level=logging.INFO, file_level=logging.NOTSET, filename='beluga.log'):
 
-    logging_level = min(display_level, file_level)
+    # Level NOTSET of a file means no file, and level NOTSET of a logger would defer to the root logger
+    logging_level = min(display_level, file_level) if file_level > logging.NOTSET else display_level
+    logging_level = max(logging_level, logging.NOTSET + 1)
 
     beluga_logger = logging.getLogger('beluga')
     beluga_logger.setLevel(logging_level)
-- 
2.43.0


From 7cfa0a4ee9da1e4ee218a9f60d9513b29d6721df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:12 +0000
Subject: [PATCH 31/41] fix: total derivatives with dependent variables

---
 beluga/symbolic/differential_geometry/differential_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 1339157..aebd8a8 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -109,7 +109,7 @@ def total_derivative(expr, var, dependent_vars=None):
     dep_var_names = dependent_vars.keys()
     dep_var_expr = [expr for (_, expr) in dependent_vars.items()]
 
-    dfdq = [expr.diff(dep_var).subs_self(dependent_vars.items()) for dep_var in dep_var_names]
+    dfdq = [expr.diff(dep_var).subs(dependent_vars) for dep_var in dep_var_names]
     dqdx = [qexpr.diff(var) for qexpr in dep_var_expr]
     out = sum(d1 * d2 for d1, d2 in zip(dfdq, dqdx)) + sympy.diff(expr, var)
     return out
-- 
2.43.0


From 5136b6af6780e560cd36fb7957f9e0c70d17a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:03 +0000
Subject: [PATCH 32/41] fix: numerical derivatives of functions that numba
 cannot compile or of several arguments

The message about falling back to interpreted code was sent to logging.beluga, which does not exist.
---
 beluga/numeric/numerical_derivatives/finite_diff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/finite_diff.py b/beluga/numeric/numerical_derivatives/finite_diff.py
index 5366358..a96911e 100644
--- a/beluga/numeric/numerical_derivatives/finite_diff.py
+++ b/beluga/numeric/numerical_derivatives/finite_diff.py
@@ -31,7 +31,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
             func = njit(tuple(arg_list))(func)
 
     except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+        logging.debug('Cannot jit compile {} to compile numerical derivative: {}'.format(func.__name__, e))
 
     step_array = []
     coeff_array = []
@@ -74,7 +74,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
         try:
             fin_diff = njit((arg_type,))(fin_diff)
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
     else:
         try:
@@ -90,7 +90,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
             fin_diff = njit((types.UniTuple(arg_type, arg_len),))(fin_diff)
 
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
             def fin_diff(*args):
                 diff = 0.
-- 
2.43.0


From df24fdb20840228506e414af0c4fdbc01a923977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:16 +0000
Subject: [PATCH 33/41] fix: complex-step derivatives of functions of several
 arguments or that numba cannot compile

---
 .../numerical_derivatives/complex_step.py     | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/complex_step.py b/beluga/numeric/numerical_derivatives/complex_step.py
index 7a8191f..e399819 100644
--- a/beluga/numeric/numerical_derivatives/complex_step.py
+++ b/beluga/numeric/numerical_derivatives/complex_step.py
@@ -10,13 +10,13 @@ import inspect
 def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
     if max(deriv_order) > 2:
-        logging.beluga('Complex-step derivative not supported for order > 2.'
-                       ' Falling back to finite difference for {}'.format(func.__name__))
+        logging.debug('Complex-step derivative not supported for order > 2.'
+                      ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
 
     if len(np.nonzero(deriv_order)[0]) > 1:
-        logging.beluga('Complex-step derivative not supported for multivariate derivatives.'
-                       ' Falling back to finite difference for {}'.format(func.__name__))
+        logging.debug('Complex-step derivative not supported for multivariate derivatives.'
+                      ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
     else:
         arg_idx = np.nonzero(deriv_order)[0][0]
@@ -44,7 +44,8 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
             func_im = njit(tuple(arg_list_im))(func)
 
     except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+        logging.debug('Cannot jit compile {} to compile numerical derivative: {}'.format(func.__name__, e))
+        func_re, func_im = func, func
 
     if arg_len == 1:
         if deriv_order == 1:
@@ -67,7 +68,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
         try:
             csd = njit((arg_type,))(csd)
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
     else:
         arg_select = np.concatenate((np.zeros((arg_idx,), dtype=float), np.array([1.]),
@@ -79,7 +80,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
                 def csd(*args):
                     args_k = tuple(np.array(args) + step*1j*arg_select)
-                    return func_im(args_k).imag/step
+                    return func_im(*args_k).imag/step
 
             else:
                 im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
@@ -88,21 +89,21 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
                 def csd(*args):
                     args_array = np.array(args)
-                    args_k_re = tuple(args_array + step_re, arg_len)
-                    args_k_im = tuple(args_array + step_im, arg_len)
-                    return 2 * (func_re(args_k_re) - func_im(args_k_im)).real / im_step_size ** 2
+                    args_k_re = tuple(args_array + step_re)
+                    args_k_im = tuple(args_array + step_im)
+                    return 2 * (func_re(*args_k_re) - func_im(*args_k_im)).real / im_step_size ** 2
 
             csd = njit((types.UniTuple(arg_type, arg_len),))(csd)
 
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
             if deriv_order == 1:
                 step = 1e-50
 
                 def csd(*args):
-                    args_k = tuple(np.array(args) + step * 1j * arg_select, arg_len)
-                    return func_im(args_k) / step
+                    args_k = np.array(args) + step * 1j * arg_select
+                    return func_im(*args_k).imag / step
 
             else:
                 im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
-- 
2.43.0


From 606dc1ec7931d12a5a9dbff685e1e4af17621da9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:52:17 +0000
Subject: [PATCH 34/41] fix: a constant whose value is refused does not keep
 its name

---
 beluga/symbolic/data_classes/components_structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index 8188989..60ac1a6 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -76,8 +76,8 @@ class NamedDimensionalStruct(NamedStruct, DimensionalStruct):
 
 class Constant(NamedDimensionalStruct):
     def __init__(self, name: str, default_val: float, units: str, local_compiler: LocalCompiler = None):
-        super(Constant, self).__init__(name, units, local_compiler=local_compiler)
         self.default_val = float(default_val)
+        super(Constant, self).__init__(name, units, local_compiler=local_compiler)
 
 
 class DynamicStruct(NamedDimensionalStruct):
-- 
2.43.0


From f17a588a747ee3ffb06de7a2eb619d12c14331c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:52:17 +0000
Subject: [PATCH 35/41] fix: scale declarations are accepted together or not at
 all

---
 beluga/symbolic/data_classes/symbolic_problem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beluga/symbolic/data_classes/symbolic_problem.py b/beluga/symbolic/data_classes/symbolic_problem.py
index a766581..b1b76b2 100644
--- a/beluga/symbolic/data_classes/symbolic_problem.py
+++ b/beluga/symbolic/data_classes/symbolic_problem.py
@@ -206,6 +206,7 @@ class Problem:
     def scale(self, **kwargs):
         for name in kwargs.keys():
             self.check_for_duplicate(name)
+        for name in kwargs.keys():
             self.units.append(NamedExpressionStruct(name, kwargs[name], local_compiler=self.local_compiler))
         return self
 
-- 
2.43.0


From c9643c571cb47216a645cf39fae0209cf7e666ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:52:17 +0000
Subject: [PATCH 36/41] fix: a switch with functions that have no conditions is
 refused

---
 beluga/symbolic/data_classes/components_structures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index 60ac1a6..841d554 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -259,9 +259,12 @@ class TableStruct(CallableStruct):
 # TODO Refine the switch class with metaclass like tables and custom functions
 class SwitchStruct(NamedStruct):
     def __init__(self, name: str, functions: Collection, conditions: Collection, tol_param: str, local_compiler=None):
-        super(SwitchStruct, self).__init__(name, local_compiler=local_compiler)
         self.functions = self._ensure_list(functions)
         self.conditions = self._ensure_list(conditions)
+        if len(self.functions) != len(self.conditions):
+            raise ValueError('Switch "{}" has {} functions but {} sets of conditions'
+                             .format(name, len(self.functions), len(self.conditions)))
+        super(SwitchStruct, self).__init__(name, local_compiler=local_compiler)
         self.tol_param = tol_param
         self.sym_func = None
 
-- 
2.43.0


From c860619bc146a158b04e6b42b4029d4b4de26f15 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:52:17 +0000
Subject: [PATCH 37/41] fix: a table whose argument data do not increase is
 refused

---
 beluga/symbolic/data_classes/components_structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index 841d554..43d01e5 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -240,6 +240,8 @@ class TableStruct(CallableStruct):
 
         # TODO Add checks for size of data, arg_data consistent with type
         if self.table_type.lower() == '1d_spline':
+            if not np.all(np.diff(self.arg_data) > 0):
+                raise ValueError('The argument data of table "{}" must be increasing'.format(name))
             self.table = tables.TableSpline1D(name, self.data, self.arg_data)
         else:
             raise NotImplementedError('{} is not a implemented table type'.format(self.table_type))
-- 
2.43.0


From fe4b5b1b8721806982f4de579dd128be0eb17476 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:58:38 +0000
Subject: [PATCH 38/41] fix: analytic Jacobians are left out for algebraic
 control however it is spelled

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 9c81cf1..993f14b 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -944,7 +944,7 @@ def make_indirect_method(prob: Problem, analytical_jacobian=False, control_metho
     Form analytical jacobians
     """
     if analytical_jacobian:
-        if control_method == 'algebraic':
+        if control_method.lower() == 'algebraic':
             logging.info('Analytical Jacobians not available for algebraic control mode')
         else:
             RFfunctor >>= ComputeAnalyticalJacobians()
-- 
2.43.0


From 3d6054d2d2c493ba0cce3b3407becece3fc4e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:07 +0000
Subject: [PATCH 39/41] fix: differential-geometric control rates are right
 when time is not a state

---
 .../symbolic/data_classes/mapping_functions.py  | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 993f14b..11014bb 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -460,6 +460,7 @@ class DifferentialControlLaw(GenericFunctor):
             prob.sol_map_chain.append(DifferentialControlMapper(control_idxs=control_idxs))
 
         elif self.method.lower() == 'diffyg':
+            time_is_state = any(isinstance(sol_map, MomentumShiftMapper) for sol_map in prob.sol_map_chain)
             independent_index = len(prob.states) - 1
             control_costates = []
             for control, control_rate in zip(prob.controls, u_dot):
@@ -479,15 +480,19 @@ class DifferentialControlLaw(GenericFunctor):
             for idx, u_dot_i in enumerate(u_dot):
                 omega_new[int(n_states - n_controls + idx), int(2 * n_states - n_controls + idx)] = 1
                 omega_new[int(2 * n_states - n_controls + idx), int(n_states - n_controls + idx)] = -1
-                omega_new[independent_index, int(2 * n_states - n_controls + idx)] = -u_dot_i
-                omega_new[int(2 * n_states - n_controls + idx), independent_index] = u_dot_i
+                if time_is_state:
+                    omega_new[independent_index, int(2 * n_states - n_controls + idx)] = -u_dot_i
+                    omega_new[int(2 * n_states - n_controls + idx), independent_index] = u_dot_i
 
             prob.omega = omega_new
-            chi_h = make_hamiltonian_vector_field(prob.hamiltonian.expr, omega_new,
-                                                extract_syms(prob.states + prob.costates))
 
-            for idx, state in enumerate(prob.states + prob.costates):
-                state.eom = chi_h[idx]
+            # Without dt the form says nothing about the rates of the controls, which are as given above
+            if time_is_state:
+                chi_h = make_hamiltonian_vector_field(prob.hamiltonian.expr, omega_new,
+                                                    extract_syms(prob.states + prob.costates))
+
+                for idx, state in enumerate(prob.states + prob.costates):
+                    state.eom = chi_h[idx]
 
             for lam_u in control_costates:
                 prob.constraints['initial'].append(
-- 
2.43.0


From 2deb7bb3e57c479d016bd7322e9fab85edb0bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:24 +0000
Subject: [PATCH 40/41] fix: the parts of the cost that set_cost is not given
 are zero

---
 beluga/symbolic/data_classes/symbolic_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/symbolic_problem.py b/beluga/symbolic/data_classes/symbolic_problem.py
index b1b76b2..0131654 100644
--- a/beluga/symbolic/data_classes/symbolic_problem.py
+++ b/beluga/symbolic/data_classes/symbolic_problem.py
@@ -199,7 +199,7 @@ class Problem:
         return self
 
     # TODO Rename cost
-    def set_cost(self, initial=None, path=None, terminal=None, units=None):
+    def set_cost(self, initial='0', path='0', terminal='0', units=None):
         self.cost = CostStruct(initial=initial, path=path, terminal=terminal, units=units,
                                local_compiler=self.local_compiler)
 
-- 
2.43.0


From ad7142bda3793e644376fe64c836200d0da6b09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:09 +0000
Subject: [PATCH 41/41] fix: a solution whose verdict is a numpy false is not
 taken for a converged one

---
 beluga/continuation/continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index a4dcced..a0b6ba6 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -97,7 +97,7 @@ class ContinuationStrategy(abc.ABC):
     def get_closest_gamma(self, const):
         norms = []
         for traj in self.gammas:
-            if traj.converged is False:
+            if not traj.converged:
                 norms.append(9e99)
             else:
                 norms.append(gamma_norm(traj.const, const))
-- 
2.43.0

