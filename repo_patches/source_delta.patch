From 2a53f92e285f36c0e1cb19545c45b6f6e002a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 01/57] fix: do not modify the coefficient array when computing
 PowerCombinationComp partials

compute_partials() accumulated an unused product into the coefficient in
place, so 'x * array' had wrong derivatives and changed the caller's array.
---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 65d02b5..66bba58 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -76,10 +76,6 @@ class PowerCombinationComp(ArrayExplicitComponent):
         powers = self.options['powers']
         coeff = self.options['coeff']
 
-        value = coeff
-        for in_name, power in zip(in_names, powers):
-            value *= inputs[in_name]**power
-
         for in_name in in_names:
             deriv = coeff * np.ones(self.options['shape'])
             for in_name2, power in zip(in_names, powers):
-- 
2.43.0


From 742a12edd1867f6055d65b367cbf6368e38cb22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 02/57] fix: use every entry of an array exponent

get_scalars_list() turned the exponent array into a list of per-input
exponents, so 'x**array' used the first entry for the whole array.
---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 2 +-
 omtools/core/variable.py                                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 66bba58..e356f6a 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -64,7 +64,7 @@ class PowerCombinationComp(ArrayExplicitComponent):
 
         outputs[out_name] = coeff
         for in_name, power in zip(in_names, powers):
-            if np.any(inputs[in_name] == 0) and power < 0:
+            if np.any(np.logical_and(inputs[in_name] == 0, power < 0)):
                 print(in_name)
                 print(inputs[in_name])
                 exit()
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 024e921..d589024 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -701,7 +701,7 @@ class ElementwisePower(Variable):
                 shape=expr1.shape,
                 out_name=self.name,
                 in_names=[expr1.name],
-                powers=expr2,
+                powers=[expr2],
                 in_vals=[expr1.val],
             )
 
-- 
2.43.0


From ae7f8d8533bfaf6ccf9eae739ba08ad49d0412f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 03/57] fix: accept a constant array as divisor

'x / array' raised 'The truth value of an array is ambiguous'.
---
 omtools/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index d589024..f77d65e 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -647,7 +647,7 @@ class ElementwiseDivision(Variable):
 
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
-            if expr2 == 0:
+            if np.any(expr2 == 0):
                 raise ValueError("Cannot divide by zero")
 
             self.shape = expr1.shape
-- 
2.43.0


From 84adc34d2a9726e6645c9778792cd01fcb18a43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 04/57] fix: flatten the arcsin and sech partials of
 multi-dimensional arrays

---
 omtools/comps/arcsincomp.py | 3 ++-
 omtools/comps/sechcomp.py   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/arcsincomp.py b/omtools/comps/arcsincomp.py
index 8414621..354ee55 100644
--- a/omtools/comps/arcsincomp.py
+++ b/omtools/comps/arcsincomp.py
@@ -48,7 +48,8 @@ class ArcsinComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = (1.0 / np.sqrt(1.0 - inputs[in_name]**2))
+        partials[out_name, in_name] = (
+            1.0 / np.sqrt(1.0 - inputs[in_name]**2)).flatten()
 
 
 if __name__ == "__main__":
diff --git a/omtools/comps/sechcomp.py b/omtools/comps/sechcomp.py
index 06eca43..63bc704 100644
--- a/omtools/comps/sechcomp.py
+++ b/omtools/comps/sechcomp.py
@@ -48,8 +48,8 @@ class SechComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = -1.0 * np.tanh(
-            inputs[in_name]) * (1.0 / np.cosh(inputs[in_name])).flatten()
+        partials[out_name, in_name] = -1.0 * (np.tanh(
+            inputs[in_name]) * (1.0 / np.cosh(inputs[in_name]))).flatten()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 733f425f1b6185f0127e89542229c77186395168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 05/57] fix: average over more than one axis

A tuple of axes indexed the shape array as a multi-dimensional index.
---
 omtools/comps/multiple_tensor_average_comp.py | 2 +-
 omtools/comps/single_tensor_average_comp.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/multiple_tensor_average_comp.py b/omtools/comps/multiple_tensor_average_comp.py
index 882906e..8b2de65 100644
--- a/omtools/comps/multiple_tensor_average_comp.py
+++ b/omtools/comps/multiple_tensor_average_comp.py
@@ -72,7 +72,7 @@ class MultipleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ),
                           1. / (num_entries_averaged * self.num_inputs))
             for in_name, in_val in zip(in_names, vals):
diff --git a/omtools/comps/single_tensor_average_comp.py b/omtools/comps/single_tensor_average_comp.py
index e46c784..6753aab 100644
--- a/omtools/comps/single_tensor_average_comp.py
+++ b/omtools/comps/single_tensor_average_comp.py
@@ -65,7 +65,7 @@ class SingleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ), 1. / num_entries_averaged)
             self.declare_partials(out_name,
                                   in_name,
-- 
2.43.0


From 5d7e348bde4d38fe527b8c77f78e20cca1e89795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 06/57] fix: sort the indices of indirect dependencies before
 removing them

The iteration order of a set of ints is not sorted once an index exceeds the
table size, so for a node with nine or more dependencies the wrong
dependencies could be removed, dropping components or misordering them.
---
 omtools/core/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omtools/core/graph.py b/omtools/core/graph.py
index 34a3125..3d352cb 100644
--- a/omtools/core/graph.py
+++ b/omtools/core/graph.py
@@ -21,8 +21,9 @@ def remove_indirect_dependencies(node: Variable):
             index = node.get_dependency_index(grandchild)
             if index is not None:
                 remove.append(index)
-    # remove duplicate indices
-    remove = list(set(remove))
+    # remove duplicate indices; indices must be sorted because they are
+    # removed starting from the last
+    remove = sorted(set(remove))
     terminal_index = 0
     # children form cycle
     # TODO: explain better
-- 
2.43.0


From b9b5b03c22931b383776b5fa81c17f3b41455297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 07/57] fix: make the shape of matmat expressions agree with
 their components

matmat(matrix, vector) declared a column but its component computed a
vector, and matmat(matrix, column) declared a column but got a vector.
---
 omtools/comps/matmat_comp.py | 6 +++++-
 omtools/std/matmat.py        | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/matmat_comp.py b/omtools/comps/matmat_comp.py
index 781b7fa..c29da18 100644
--- a/omtools/comps/matmat_comp.py
+++ b/omtools/comps/matmat_comp.py
@@ -24,6 +24,7 @@ class MatMatComp(ExplicitComponent):
         self.options.declare('in_names', types=list)
         self.options.declare('out_name', types=str)
         self.options.declare('in_shapes', types=list)
+        self.options.declare('out_shape', default=None, types=tuple)
         self.options.declare('in_vals', types=list)
 
     def setup(self):
@@ -35,7 +36,10 @@ class MatMatComp(ExplicitComponent):
         self.add_input(in_names[0], shape=in_shapes[0], val=in_vals[0])
         self.add_input(in_names[1], shape=in_shapes[1], val=in_vals[1])
 
-        if in_shapes[1][1] != 1:
+        if self.options['out_shape'] is not None:
+            output_shape = self.options['out_shape']
+
+        elif in_shapes[1][1] != 1:
             output_shape = (in_shapes[0][0], in_shapes[1][1])
 
         else:
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 9f56e3c..1069058 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -33,11 +33,12 @@ def matmat(mat1, mat2):
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
             in_shapes=[mat1.shape, mat2.shape],
+            out_shape=out.shape,
             in_vals=[mat1.val, mat2.val],
         )
 
     elif mat1.shape[1] == mat2.shape[0] and len(mat2.shape) == 1:
-        out.shape = (mat1.shape[0], 1)
+        out.shape = (mat1.shape[0], )
 
         mat2_shape = (mat2.shape[0], 1)
 
-- 
2.43.0


From a9ea94b1205c7016b03589aa1be691eb9253246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 08/57] fix: einsum partials with sparse format and with
 repeated operands

The sparse partials were indexed with a list instead of a tuple, and both
components looked up per-input data with the position of the operand although
the data is stored once for each distinct operand (and was not stored at all
for operands with dense partials).
---
 omtools/comps/einsum_comp_dense_derivs.py  | 2 +-
 omtools/comps/einsum_comp_sparse_derivs.py | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/einsum_comp_dense_derivs.py b/omtools/comps/einsum_comp_dense_derivs.py
index e6c8ad0..12ff250 100644
--- a/omtools/comps/einsum_comp_dense_derivs.py
+++ b/omtools/comps/einsum_comp_dense_derivs.py
@@ -181,7 +181,7 @@ class EinsumComp(ExplicitComponent):
             partials[out_name, in_name] = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 043e366..7483bc1 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -292,6 +292,9 @@ class SparsePartialEinsumComp(ExplicitComponent):
 
             else:
                 self.declare_partials(out_name, in_name)
+                # keep one entry for each distinct input
+                self.partial_indices_list.append(None)
+                self.flattened_indices_list.append(None)
 
     def compute(self, inputs, outputs):
         in_names = self.options['in_names']
@@ -348,7 +351,7 @@ class SparsePartialEinsumComp(ExplicitComponent):
             partial = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
@@ -381,7 +384,8 @@ class SparsePartialEinsumComp(ExplicitComponent):
                 partial_indices_list = self.partial_indices_list[
                     len(completed_in_names) - 1]
 
-                partials[out_name, in_name] = partial[partial_indices_list]
+                partials[out_name, in_name] = partial[tuple(
+                    partial_indices_list)]
 
             else:
                 partials[out_name, in_name] = partial
-- 
2.43.0


From f3d579c1708c5875a185ad8396faa4793357e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 09/57] fix: accept the same operand more than once in an
 expression

'x + x', 'x * x', 'dot(x, x)', 'sum(x, y, x)', ... built components with two
inputs of the same name, which OpenMDAO rejects.
---
 omtools/core/variable.py | 31 +++++++++++++++++++++++++++++++
 omtools/std/average.py   |  3 ++-
 omtools/std/cross.py     |  3 ++-
 omtools/std/dot.py       |  3 ++-
 omtools/std/if_else.py   |  5 ++++-
 omtools/std/inner.py     |  3 ++-
 omtools/std/matmat.py    |  3 ++-
 omtools/std/max.py       |  3 ++-
 omtools/std/min.py       |  3 ++-
 omtools/std/outer.py     |  3 ++-
 omtools/std/sum.py       |  3 ++-
 11 files changed, 53 insertions(+), 10 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index f77d65e..f3964be 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -400,12 +400,40 @@ class Variable():
         return len(self.dependents)
 
 
+def distinct_operands(*operands):
+    """
+    Replace each repeated operand with a copy of itself, so that every
+    operand corresponds to a different input of the ``Component`` object
+    that is constructed.
+
+    Parameters
+    ----------
+    operands: Variable(s) or constants
+        Operands of an expression
+
+    Returns
+    -------
+    list
+        Operands; no two ``Variable`` objects have the same name
+    """
+    names = set()
+    distinct = []
+    for operand in operands:
+        if isinstance(operand, Variable):
+            if operand.name in names:
+                operand = ElementwiseMultiplication(operand, 1)
+            names.add(operand.name)
+        distinct.append(operand)
+    return distinct
+
+
 class ElementwiseAddition(Variable):
     """
     ``Variable`` object used to create a LinearCombinationComp for
     addition
     """
     def initialize(self, expr1, expr2):
+        expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -469,6 +497,7 @@ class ElementwiseSubtraction(Variable):
     subtraction
     """
     def initialize(self, expr1, expr2):
+        expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -536,6 +565,7 @@ class ElementwiseMultiplication(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -605,6 +635,7 @@ class ElementwiseDivision(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
diff --git a/omtools/std/average.py b/omtools/std/average.py
index 4ce82dc..ce2c19e 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -1,6 +1,6 @@
 from omtools.comps.single_tensor_average_comp import SingleTensorAverageComp
 from omtools.comps.multiple_tensor_average_comp import MultipleTensorAverageComp
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 from typing import List
 import numpy as np
 
@@ -23,6 +23,7 @@ def average(*operands: List[Variable], axes=None):
     '''
 
     out = Variable()
+    operands = distinct_operands(*operands)
     for expr in operands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
diff --git a/omtools/std/cross.py b/omtools/std/cross.py
index c235144..674e50c 100644
--- a/omtools/std/cross.py
+++ b/omtools/std/cross.py
@@ -1,5 +1,5 @@
 from omtools.comps.cross_product_comp import CrossProductComp
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 
 
 def cross(in1, in2, axis: int):
@@ -22,6 +22,7 @@ def cross(in1, in2, axis: int):
     if not (isinstance(in1, Variable) and isinstance(in2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
     out = Variable()
+    in1, in2 = distinct_operands(in1, in2)
     out.add_dependency_node(in1)
     out.add_dependency_node(in2)
 
diff --git a/omtools/std/dot.py b/omtools/std/dot.py
index bd5f73e..58d35c1 100644
--- a/omtools/std/dot.py
+++ b/omtools/std/dot.py
@@ -1,7 +1,7 @@
 from omtools.comps.tensor_dot_product_comp import TensorDotProductComp
 from omtools.comps.vector_inner_product_comp import VectorInnerProductComp
 
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 from typing import List
 import numpy as np
 
@@ -26,6 +26,7 @@ def dot(expr1: Variable, expr2: Variable, axis=None):
     if not (isinstance(expr1, Variable) and isinstance(expr2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
     out = Variable()
+    expr1, expr2 = distinct_operands(expr1, expr2)
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
 
diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 29b9c51..7920a7b 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -1,4 +1,4 @@
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 # from omtools.comps.conditional_component import ConditionalComponent
 from openmdao.api import ExplicitComponent
 import numpy as np
@@ -64,6 +64,9 @@ def if_else(
             "Variable shapes must be the same for Variable objects for both branches of execution"
         )
 
+    condition, expr_true, expr_false = distinct_operands(
+        condition, expr_true, expr_false)
+
     out = Variable()
     out.add_dependency_node(condition)
     out.add_dependency_node(expr_true)
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index ac0b582..063f3a5 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -1,7 +1,7 @@
 from omtools.comps.tensor_inner_product_comp import TensorInnerProductComp
 from omtools.comps.vector_inner_product_comp import VectorInnerProductComp
 
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 from typing import List
 import numpy as np
 
@@ -27,6 +27,7 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         raise TypeError(expr2, " is not an Variable object")
 
     out = Variable()
+    expr1, expr2 = distinct_operands(expr1, expr2)
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
 
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 1069058..2ae0541 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -1,5 +1,5 @@
 from omtools.comps.matmat_comp import MatMatComp
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 from typing import List
 import numpy as np
 
@@ -22,6 +22,7 @@ def matmat(mat1, mat2):
     if not (isinstance(mat1, Variable) and isinstance(mat2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
     out = Variable()
+    mat1, mat2 = distinct_operands(mat1, mat2)
     out.add_dependency_node(mat1)
     out.add_dependency_node(mat2)
 
diff --git a/omtools/std/max.py b/omtools/std/max.py
index 0438e98..1ddd988 100644
--- a/omtools/std/max.py
+++ b/omtools/std/max.py
@@ -2,7 +2,7 @@ from omtools.comps.axiswise_max_comp import AxisMaxComp
 from omtools.comps.elementwise_max_comp import ElementwiseMaxComp
 from omtools.comps.scalar_extremum_comp import ScalarExtremumComp
 
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 
 import numpy as np
 
@@ -26,6 +26,7 @@ def max(*exprs, axis=None, rho=20.):
     '''
 
     out = Variable()
+    exprs = distinct_operands(*exprs)
     for expr in exprs:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
diff --git a/omtools/std/min.py b/omtools/std/min.py
index 9f43b0a..1ee2e27 100644
--- a/omtools/std/min.py
+++ b/omtools/std/min.py
@@ -2,7 +2,7 @@ from omtools.comps.axiswise_min_comp import AxisMinComp
 from omtools.comps.elementwise_min_comp import ElementwiseMinComp
 from omtools.comps.scalar_extremum_comp import ScalarExtremumComp
 
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 
 import numpy as np
 
@@ -26,6 +26,7 @@ def min(*exprs, axis=None, rho=20.):
     '''
 
     out = Variable()
+    exprs = distinct_operands(*exprs)
     for expr in exprs:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
diff --git a/omtools/std/outer.py b/omtools/std/outer.py
index ebbed1f..c22d2d0 100644
--- a/omtools/std/outer.py
+++ b/omtools/std/outer.py
@@ -1,7 +1,7 @@
 from omtools.comps.tensor_outer_product_comp import TensorOuterProductComp
 from omtools.comps.vector_outer_product_comp import VectorOuterProductComp
 
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 from typing import List
 import numpy as np
 
@@ -24,6 +24,7 @@ def outer(expr1: Variable, expr2: Variable):
     elif not isinstance(expr2, Variable):
         raise TypeError(expr2, " is not an Variable object")
     out = Variable()
+    expr1, expr2 = distinct_operands(expr1, expr2)
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
 
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index 9380911..0061112 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -1,6 +1,6 @@
 from omtools.comps.single_tensor_sum_comp import SingleTensorSumComp
 from omtools.comps.multiple_tensor_sum_comp import MultipleTensorSumComp
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 from typing import List
 import numpy as np
 
@@ -21,6 +21,7 @@ def sum(*summands: List[Variable], axes=None):
     '''
 
     out = Variable()
+    summands = distinct_operands(*summands)
     for expr in summands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
-- 
2.43.0


From cc432863c2845836dd41c6bc965733854a234f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 10/57] fix: accept NumPy scalars as constants in expressions

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 4 +++-
 omtools/comps/linearcombination_comp.py                  | 4 +++-
 omtools/utils/process_options.py                         | 6 ++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index e356f6a..3604159 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -1,3 +1,5 @@
+from numbers import Number
+
 import numpy as np
 
 from omtools.comps.array_explicit_component import ArrayExplicitComponent
@@ -19,7 +21,7 @@ class PowerCombinationComp(ArrayExplicitComponent):
                              allow_none=True)
         self.options.declare('coeff',
                              default=1.,
-                             types=(int, float, np.ndarray))
+                             types=(Number, np.ndarray))
         self.options.declare('in_vals', types=list)
 
         self.post_initialize()
diff --git a/omtools/comps/linearcombination_comp.py b/omtools/comps/linearcombination_comp.py
index 5b2fa39..4acce48 100644
--- a/omtools/comps/linearcombination_comp.py
+++ b/omtools/comps/linearcombination_comp.py
@@ -1,3 +1,5 @@
+from numbers import Number
+
 import numpy as np
 from openmdao.api import ExplicitComponent
 from omtools.utils.process_options import name_types, get_names_list, shape_types, get_shapes_list, scalar_types, get_scalars_list
@@ -18,7 +20,7 @@ class LinearCombinationComp(ExplicitComponent):
                              allow_none=True)
         self.options.declare('constant',
                              default=0.,
-                             types=(int, float, np.ndarray))
+                             types=(Number, np.ndarray))
         self.options.declare('in_vals', types=list)
 
     def setup(self):
diff --git a/omtools/utils/process_options.py b/omtools/utils/process_options.py
index c257204..3726a65 100644
--- a/omtools/utils/process_options.py
+++ b/omtools/utils/process_options.py
@@ -1,3 +1,5 @@
+from numbers import Number
+
 import numpy as np
 
 name_types = (str, list)
@@ -14,11 +16,11 @@ def get_names_list(names):
     return names
 
 
-scalar_types = (int, float, list, np.ndarray)
+scalar_types = (Number, list, np.ndarray)
 
 
 def get_scalars_list(scalars, names):
-    if isinstance(scalars, (int, float)):
+    if isinstance(scalars, Number):
         scalars = [scalars] * len(names)
     elif isinstance(scalars, (list)):
         pass
-- 
2.43.0


From a3be635003c7a1ba02d6d2ec50219e539c4d0a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 11/57] fix: if_else for array branches and its partial
 derivatives

---
 omtools/std/if_else.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 7920a7b..d6e22e5 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -17,10 +17,10 @@ class ConditionalComponent(ExplicitComponent):
         expr_true = self.options['expr_true']
         expr_false = self.options['expr_false']
 
-        self.add_input(condition.name, condition.val)
-        self.add_input(expr_true.name, expr_true.val)
-        self.add_input(expr_false.name, expr_false.val)
-        self.add_output(out_name)
+        self.add_input(condition.name, val=condition.val, shape=condition.shape)
+        self.add_input(expr_true.name, val=expr_true.val, shape=expr_true.shape)
+        self.add_input(expr_false.name, val=expr_false.val, shape=expr_false.shape)
+        self.add_output(out_name, shape=expr_true.shape)
 
         self.declare_partials(
             of=out_name,
@@ -47,10 +47,10 @@ class ConditionalComponent(ExplicitComponent):
         expr_false = self.options['expr_false']
 
         if inputs[condition.name] < 0:
-            partials[out_name, expr_false.name] = inputs[expr_false.name]
+            partials[out_name, expr_false.name] = 1
             partials[out_name, expr_true.name] = 0
         else:
-            partials[out_name, expr_true.name] = inputs[expr_true.name]
+            partials[out_name, expr_true.name] = 1
             partials[out_name, expr_false.name] = 0
 
 
@@ -68,6 +68,7 @@ def if_else(
         condition, expr_true, expr_false)
 
     out = Variable()
+    out.shape = expr_true.shape
     out.add_dependency_node(condition)
     out.add_dependency_node(expr_true)
     out.add_dependency_node(expr_false)
-- 
2.43.0


From 749ae84a532f32de4761d577873ca2d73c7204a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 12/57] fix: index-based extraction from expressions that do
 not store a full value

---
 omtools/core/variable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index f3964be..5cc61df 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -143,9 +143,12 @@ class Variable():
         self,
         key: Union[int, slice, Tuple[slice]],
     ):
+        # NOTE: not all expressions store a value with the same shape as
+        # the expression
+        val = self.val * np.ones(self.shape)
         if self._getitem_called == False:
             self._getitem_called = True
-            self._decomp = Variable(shape=self.shape, val=self.val[key])
+            self._decomp = Variable(shape=self.shape, val=val)
             self._decomp.name = 'decompose_' + self.name
             self._decomp.add_dependency_node(self)
 
@@ -196,7 +199,7 @@ class Variable():
                              self.__repr__())
 
         # Create and store expression to return
-        val = self.val[tuple([slice(s[0], s[1], s[2]) for s in list(key)])]
+        val = val[tuple([slice(s[0], s[1], s[2]) for s in list(key)])]
         expr = Variable(shape=val.shape, val=val)
         self._decomp.indexed_exprs[key] = expr
         expr.add_dependency_node(self._decomp)
-- 
2.43.0


From 11d703f5b435b2749ec80dd578de539229f2a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 13/57] fix: use the declared value of the input when expanding
 a scalar

---
 omtools/comps/scalar_expansion_comp.py | 4 +++-
 omtools/std/expand.py                  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/scalar_expansion_comp.py b/omtools/comps/scalar_expansion_comp.py
index 971729e..61757ce 100644
--- a/omtools/comps/scalar_expansion_comp.py
+++ b/omtools/comps/scalar_expansion_comp.py
@@ -10,13 +10,15 @@ class ScalarExpansionComp(ExplicitComponent):
         self.options.declare('shape', types=tuple)
         self.options.declare('in_name', types=str)
         self.options.declare('out_name', types=str)
+        self.options.declare('val', types=np.ndarray, default=np.ones(1))
 
     def setup(self):
         shape = self.options['shape']
         in_name = self.options['in_name']
         out_name = self.options['out_name']
+        val = self.options['val']
 
-        self.add_input(in_name)
+        self.add_input(in_name, val=val)
         self.add_output(out_name, shape=shape)
 
         rows = np.arange(np.prod(shape))
diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 43f84e6..6a84afe 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -57,5 +57,6 @@ def expand(expr: Variable, shape: tuple, indices=None):
             shape=shape,
             in_name=expr.name,
             out_name=out.name,
+            val=expr.val,
         )
     return out
-- 
2.43.0


From f1f09db8e31b48eb8963d29598180841395de9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 14/57] fix: assign expressions that are registered afterwards
 to the indices of an output

---
 omtools/core/explicit_output.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index d6f0d9f..f18bff7 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -39,7 +39,7 @@ class ExplicitOutput(Output):
         self.shape, self.val = get_shape_val(shape, val)
         self.defined = False
         self.indexed_assignment = False
-        self._tgt_indices: Dict[str, List[int]] = {}
+        self._tgt_indices: Dict[Variable, List[int]] = {}
         self.checked_indices = set()
         self.overlapping_indices = set()
         self._tgt_vals = dict()
@@ -90,6 +90,11 @@ class ExplicitOutput(Output):
         key: Union[int, slice, Tuple[slice]],
         expr: Variable,
     ):
+        if self.defined == True and self.indexed_assignment == False:
+            raise ValueError(
+                "Variable for output " + self.name +
+                ", which forms a cycle to be computed iteratively, is already defined"
+            )
         self.add_dependency_node(expr)
         tgt_indices = []
 
@@ -141,13 +146,16 @@ class ExplicitOutput(Output):
         if np.amax(tgt_indices) >= np.prod(self.shape):
             raise ValueError("Indices given are out of range for " +
                              self.__repr__())
+        if np.amin(tgt_indices) < 0:
+            raise ValueError("Negative indices are not allowed for " +
+                             self.__repr__())
 
-        if expr.name in self._tgt_indices.keys():
+        if expr.name in [e.name for e in self._tgt_indices.keys()]:
             raise KeyError("Repeated use of expression " + expr.name +
                            " in assignment to elements in " + self.name +
                            ". Consider using omtools.expand")
-        self._tgt_indices[expr.name] = (expr.shape, tgt_indices)
-        self._tgt_vals[expr.name] = expr.val
+        self._tgt_indices[expr] = (expr.shape, tgt_indices)
+        self._tgt_vals[expr] = expr.val
 
         # Check for overlapping indices
         self.overlapping_indices = self.checked_indices.intersection(
@@ -156,11 +164,17 @@ class ExplicitOutput(Output):
         if len(self.overlapping_indices) > 0:
             raise ValueError("Indices used for assignment must not overlap")
 
+        # NOTE: expressions can be given a different name after they are
+        # assigned (when registered as an output)
         self.build = lambda: IndexedPassThroughComp(
-            expr_indices=self._tgt_indices,
+            expr_indices={
+                e.name: indices
+                for e, indices in self._tgt_indices.items()
+            },
             out_name=self.name,
             out_shape=self.shape,
-            vals=self._tgt_vals,
+            vals={e.name: val
+                  for e, val in self._tgt_vals.items()},
         )
         self.indexed_assignment = True
         self.defined = True
-- 
2.43.0


From e2c2baa4ec1b472413b5c5d767ec14785a83f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 15/57] fix: visit each expression once when analyzing the
 graph

The number of visits grew exponentially with the number of expressions
that use the same expression more than once, and long chains of
expressions exceeded the recursion limit.
---
 omtools/core/variable.py                   | 71 +++++++++++++++-------
 omtools/utils/collect_input_exprs.py       | 16 +++--
 omtools/utils/replace_output_leaf_nodes.py | 19 ++++--
 3 files changed, 72 insertions(+), 34 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 5cc61df..5a126cc 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -215,9 +215,18 @@ class Variable():
         return expr
 
     def add_fwd_edges(self):
-        for dependency in self.dependencies:
-            dependency.add_dependent_node(self)
-            dependency.add_fwd_edges()
+        # NOTE: each node is visited once, no matter how many paths lead to
+        # it, and without recursion, so that the depth of the DAG is not
+        # limited
+        visited = {self}
+        stack = [self]
+        while stack != []:
+            node = stack.pop()
+            for dependency in node.dependencies:
+                dependency.add_dependent_node(node)
+                if dependency not in visited:
+                    visited.add(dependency)
+                    stack.append(dependency)
 
     def add_dependent_node(self, dependent):
         self.dependents.append(dependent)
@@ -253,23 +262,25 @@ class Variable():
         nodes: dict[Variable]
             Dictionary of nodes registered so far
         """
-        for node in self.dependencies:
-            # Check for name collisions
-            if node._id in nodes.keys():
-                if nodes[node._id] is not None:
-                    # if name is in use and a separate object is already
-                    # registered, then we have a name collision
-                    if nodes[node._id] is not node:
-                        raise ValueError(
-                            "Name collision (", node.name, ") between ",
-                            nodes[node._id], " and ", node,
-                            "; check that calls to regiser_output and ",
-                            "create_* do not give the same name to ",
-                            "two outputs")
-            else:
-                # register node
-                nodes[node._id] = node
-                node.register_nodes(nodes)
+        stack = [self]
+        while stack != []:
+            for node in stack.pop().dependencies:
+                # Check for name collisions
+                if node._id in nodes.keys():
+                    if nodes[node._id] is not None:
+                        # if name is in use and a separate object is already
+                        # registered, then we have a name collision
+                        if nodes[node._id] is not node:
+                            raise ValueError(
+                                "Name collision (", node.name, ") between ",
+                                nodes[node._id], " and ", node,
+                                "; check that calls to regiser_output and ",
+                                "create_* do not give the same name to ",
+                                "two outputs")
+                else:
+                    # register node
+                    nodes[node._id] = node
+                    stack.append(node)
 
     def incr_times_visited(self):
         """
@@ -339,8 +350,24 @@ class Variable():
         int
            Cost of traversing DAG starting with ``self``
         """
-        for dependency in self.dependencies:
-            self._dag_cost += dependency.compute_dag_cost()
+        # NOTE: the cost of each node is computed once, after the costs of
+        # all of its dependencies
+        computed = set()
+        stack = [self]
+        while stack != []:
+            node = stack[-1]
+            remaining = [
+                dependency for dependency in node.dependencies
+                if dependency not in computed
+            ]
+            if remaining != [] and node not in computed:
+                stack.extend(remaining)
+                continue
+            stack.pop()
+            if node not in computed:
+                computed.add(node)
+                node._dag_cost = 1 + sum(dependency._dag_cost
+                                         for dependency in node.dependencies)
         return self._dag_cost
 
     def sort_dependency_branches(self, reverse_branch_sorting=False):
diff --git a/omtools/utils/collect_input_exprs.py b/omtools/utils/collect_input_exprs.py
index 799860b..09fdc4f 100644
--- a/omtools/utils/collect_input_exprs.py
+++ b/omtools/utils/collect_input_exprs.py
@@ -13,10 +13,14 @@ def collect_input_exprs(
     Collect input nodes so that the resulting ``ImplicitComponent`` has
     access to inputs outside of itself.
     """
-    for dependency in expr.dependencies:
-        if dependency.name != root.name:
-            if isinstance(dependency, Input) == True and len(
-                    dependency.dependencies) == 0:
-                inputs.append(dependency)
-            inputs = collect_input_exprs(inputs, root, dependency)
+    visited = {expr}
+    stack = [expr]
+    while stack != []:
+        for dependency in stack.pop().dependencies:
+            if dependency.name != root.name and dependency not in visited:
+                visited.add(dependency)
+                if isinstance(dependency, Input) == True and len(
+                        dependency.dependencies) == 0:
+                    inputs.append(dependency)
+                stack.append(dependency)
     return inputs
diff --git a/omtools/utils/replace_output_leaf_nodes.py b/omtools/utils/replace_output_leaf_nodes.py
index 73dc4ef..9853408 100644
--- a/omtools/utils/replace_output_leaf_nodes.py
+++ b/omtools/utils/replace_output_leaf_nodes.py
@@ -12,9 +12,16 @@ def replace_output_leaf_nodes(
     Replace ``Output`` objects that are used before they are defined
     with ``Input`` objects with same data.
     """
-    for dependency in node.dependencies:
-        if dependency is root:
-            # replace dependency reference with Input node
-            node.remove_dependency_node(dependency)
-            node.add_dependency_node(leaf)
-        replace_output_leaf_nodes(root, dependency, leaf)
+    # NOTE: dependencies of a node are modified while traversing the graph
+    visited = {node}
+    stack = [node]
+    while stack != []:
+        parent = stack.pop()
+        for dependency in list(parent.dependencies):
+            if dependency is root:
+                # replace dependency reference with Input node
+                parent.remove_dependency_node(dependency)
+                parent.add_dependency_node(leaf)
+            if dependency not in visited:
+                visited.add(dependency)
+                stack.append(dependency)
-- 
2.43.0


From 06f50325436240c0ead4c1d6eb82f1a6fb71dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 16/57] fix: set up a problem with an omtools.Group more than
 once

---
 omtools/core/group.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 512dd93..379dc9c 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -35,8 +35,13 @@ def _post_setup(func: Callable) -> Callable:
         User defined method to define expressions and add subsystems for
         model execution
         """
+        # Discard graph built during a previous call to Group.setup()
+        if self._graph_built == True:
+            self._reset_graph()
+
         # The user-defined Group.setup() method
         func(self)
+        self._graph_built = True
 
         # Create a record of all nodes in DAG
         self._root.register_nodes(self.nodes)
@@ -151,10 +156,17 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
     """
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
-        self.nodes: dict = {}
         self.input_vals: dict = {}
         self.sorted_builders = []
         self.reverse_branch_sorting: bool = False
+        self._reset_graph()
+
+    def _reset_graph(self):
+        """
+        Start with a graph without any nodes
+        """
+        self._graph_built = False
+        self.nodes: dict = {}
         self._root = Variable()
         self._most_recently_added_subsystem: Subsystem = None
         self.res_out_map: Dict[str, str] = dict()
-- 
2.43.0


From 3ae2a39934a7a70978256e6ba384387aaa12f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 17/57] fix: brackets, initial values and maxiter of
 ImplicitComponent

The brackets of all but the last output were discarded, the value of
create_implicit_output was replaced by that of the residual expression,
and the maxiter argument had no effect.
---
 omtools/comps/implicit_component.py | 12 +++++-------
 omtools/core/implicit_output.py     |  4 +++-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 912df33..4357123 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -62,7 +62,7 @@ def _post_setup(func: Callable) -> Callable:
                 self.add_output(
                     out_name,
                     shape=res_expr.shape,
-                    val=res_expr.val,
+                    val=g.out_vals[out_name],
                 )
 
                 # add inputs, declare partials (out wrt in)
@@ -105,12 +105,9 @@ def _post_setup(func: Callable) -> Callable:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 out_name = self.group.res_out_map[res_expr.name]
-                if len(self.group.out_vals) == 0:
-                    self.prob[out_name] = 1
-                else:
-                    self.prob[out_name] = self.group.out_vals[out_name]
                 for in_expr in self.all_inputs[out_name]:
                     self.prob[in_expr.name] = in_expr.val
+                self.prob[out_name] = self.group.out_vals[out_name]
 
         # create n2 diagram of internal model for debugging
         if self.n2 == True:
@@ -158,7 +155,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
         self.derivs = dict()
-        self.maxiter = 100
+        self.maxiter = maxiter
         self.n2 = n2
 
     def _set_values(self, inputs, outputs):
@@ -206,7 +203,8 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 out_name = self.group.res_out_map[res_expr.name]
                 shape = res_expr.shape
 
-                if self.group.brackets_map is not None:
+                if self.group.brackets_map is not None and out_name in self.group.brackets_map[
+                        0]:
                     x1 = self.group.brackets_map[0][out_name] * np.ones(shape)
                     x2 = self.group.brackets_map[1][out_name] * np.ones(shape)
 
diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index b6a9974..de6a5f2 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -154,7 +154,9 @@ class ImplicitOutput(Output):
 
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
-        self.group.brackets_map = (dict(), dict())
+        self.group.out_vals[self.name] = self.val
+        if self.group.brackets_map is None:
+            self.group.brackets_map = (dict(), dict())
         self.group.brackets_map[0][self.name] = x1
         self.group.brackets_map[1][self.name] = x2
 
-- 
2.43.0


From ba50bfd1a9978d7750f9fcb941ecbb28e3d6e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 18/57] fix: ImplicitComponent with residuals that share inputs
 or depend on several outputs

Inputs used in more than one residual were added more than once, the
partial derivatives of each residual with respect to the other outputs
were not declared, and solve_linear used the diagonal of the jacobian
only.
---
 omtools/comps/implicit_component.py | 84 ++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 31 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 4357123..f0fc2dd 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -43,15 +43,23 @@ def _post_setup(func: Callable) -> Callable:
 
         _remove_nonresiduals(g._root)
 
+        # names of variables already added to this component
+        added = set(g.res_out_map.values())
+
         # Collect residual expressions and their corresponding inputs
         # and outputs
         for res_expr in g._root.dependencies:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
-                # inputs for this residual only
-                in_exprs = set(collect_input_exprs([], res_expr, res_expr))
                 # output corresponding to this residual
                 out_name = self.group.res_out_map[res_expr.name]
+                # inputs for this residual only; outputs of other residuals
+                # are not inputs
+                in_exprs = set(
+                    expr
+                    for expr in collect_input_exprs([], res_expr, res_expr)
+                    if expr.name == out_name
+                    or expr.name not in g.res_out_map.values())
 
                 # accumulate inputs and outputs to set values
                 self.all_inputs[out_name] = in_exprs
@@ -68,21 +76,26 @@ def _post_setup(func: Callable) -> Callable:
                 # add inputs, declare partials (out wrt in)
                 for in_expr in in_exprs:
                     if in_expr.name != out_name:
-                        self.add_input(
-                            in_expr.name,
-                            shape=in_expr.shape,
-                            val=in_expr.val,
-                        )
+                        # residuals can have inputs in common
+                        if in_expr.name not in added:
+                            added.add(in_expr.name)
+                            self.add_input(
+                                in_expr.name,
+                                shape=in_expr.shape,
+                                val=in_expr.val,
+                            )
                         self.declare_partials(
                             of=out_name,
                             wrt=in_expr.name,
                         )
 
-                # residual wrt output
-                self.declare_partials(
-                    of=out_name,
-                    wrt=out_name,
-                )
+                # residual wrt outputs, including outputs of the other
+                # residuals
+                for name in g.res_out_map.values():
+                    self.declare_partials(
+                        of=out_name,
+                        wrt=name,
+                    )
 
                 # set response and design variables to compute derivatives
                 # treat inputs and output as inputs to internal model
@@ -154,7 +167,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self.group = self.prob.model
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
-        self.derivs = dict()
+        self.derivs = None
         self.maxiter = maxiter
         self.n2 = n2
 
@@ -239,28 +252,37 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         res_names = list(self.group.res_out_map.keys())
         out_names = list(self.all_inputs.keys())
 
+        self.prob.run_model()
         jac = self.prob.compute_totals(
             of=res_names,
-            wrt=[in_expr.name for in_expr in list(in_exprs)] + out_names,
+            wrt=list(
+                dict.fromkeys([in_expr.name for in_expr in in_exprs] +
+                              out_names)),
         )
 
-        for res_expr in self.group._root.dependencies:
-            if isinstance(res_expr, Subsystem) == False:
-                res_name = res_expr.name
-                out_name = self.group.res_out_map[res_name]
-                for in_expr in self.all_inputs[out_name]:
-                    jacobian[out_name, in_expr.name] = jac[res_name,
-                                                           in_expr.name]
-                jacobian[out_name, out_name] = jac[res_name, out_name]
+        for res_name, out_name in self.group.res_out_map.items():
+            for in_expr in self.all_inputs[out_name]:
+                jacobian[out_name, in_expr.name] = jac[res_name, in_expr.name]
+            for name in out_names:
+                jacobian[out_name, name] = jac[res_name, name]
 
-                self.derivs[out_name] = np.diag(
-                    jac[res_name, out_name]).reshape(res_expr.shape)
+        # derivatives of all residuals wrt all outputs
+        self.derivs = np.block([[
+            jac[res_name, name] for name in self.group.res_out_map.values()
+        ] for res_name in res_names])
 
     def solve_linear(self, d_outputs, d_residuals, mode):
-        for out_name in self.group.res_out_map.values():
-            if mode == 'fwd':
-                d_outputs[out_name] += 1. / self.derivs[
-                    out_name] * d_residuals[out_name]
-            else:
-                d_residuals[out_name] += 1. / self.derivs[
-                    out_name] * d_outputs[out_name]
+        out_names = list(self.group.res_out_map.values())
+        if mode == 'fwd':
+            rhs, sol, derivs = d_residuals, d_outputs, self.derivs
+        else:
+            rhs, sol, derivs = d_outputs, d_residuals, self.derivs.T
+        x = np.linalg.solve(
+            derivs,
+            np.concatenate([rhs[name].flatten() for name in out_names]),
+        )
+        start = 0
+        for name in out_names:
+            stop = start + sol[name].size
+            sol[name] = x[start:stop].reshape(sol[name].shape)
+            start = stop
-- 
2.43.0


From ada3441c95580197164077469345adffe59d0898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 19/57] fix: set up a problem with an omtools.ImplicitComponent
 more than once

---
 omtools/comps/implicit_component.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index f0fc2dd..78a3d80 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -37,6 +37,10 @@ def _remove_nonresiduals(root: Variable):
 # TODO: disallow implicit variables in main group class
 def _post_setup(func: Callable) -> Callable:
     def _build_problem(self):
+        # Discard internal problem built during a previous call to setup
+        if len(self.all_inputs) > 0:
+            self._create_problem()
+
         func(self)
         # setup internal problem
         g = self.group
@@ -162,14 +166,20 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             ['apply_linear', 'apply_multi_linear', 'solve_multi_linear']
         }
 
+        self._create_problem()
+        self.maxiter = maxiter
+        self.n2 = n2
+
+    def _create_problem(self):
+        """
+        Create internal problem
+        """
         self.prob = Problem()
         self.prob.model = Group()
         self.group = self.prob.model
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
         self.derivs = None
-        self.maxiter = maxiter
-        self.n2 = n2
 
     def _set_values(self, inputs, outputs):
         for res_expr in self.group._root.dependencies:
-- 
2.43.0


From 75f177f8b0be4b3f2c5ee818ce7fea59f5f9b6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 20/57] fix: raise an error, do not exit, when dividing by
 zero; derivative of x**0

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 3604159..dcab91b 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -67,9 +67,9 @@ class PowerCombinationComp(ArrayExplicitComponent):
         outputs[out_name] = coeff
         for in_name, power in zip(in_names, powers):
             if np.any(np.logical_and(inputs[in_name] == 0, power < 0)):
-                print(in_name)
-                print(inputs[in_name])
-                exit()
+                raise ZeroDivisionError(
+                    "Cannot raise zero to a negative power; " + in_name +
+                    " = " + str(inputs[in_name]))
             outputs[out_name] *= inputs[in_name]**power
 
     def compute_partials(self, inputs, partials):
@@ -85,7 +85,8 @@ class PowerCombinationComp(ArrayExplicitComponent):
                 b = power
                 if in_name == in_name2:
                     a = power
-                    b = power - 1.
+                    # derivative is zero where power is zero
+                    b = np.where(power == 0, 0., power - 1.)
                 deriv *= a * inputs[in_name2]**b
 
             partials[out_name, in_name] = deriv.flatten()
-- 
2.43.0


From a925567ef00c1403dfed6b8067079478130db378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 21/57] fix: reject operands and keys for which no expression
 can be constructed

---
 omtools/core/variable.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 5a126cc..522b2ac 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -176,6 +176,9 @@ class Variable():
                             slice(key[i], key[i] + 1, None),
                             self.shape,
                         ))
+                else:
+                    raise TypeError(
+                        "Key must contain only slice and/or int objects")
             key = tuple(l)
         else:
             raise TypeError(
@@ -513,6 +516,11 @@ class ElementwiseAddition(Variable):
                 in_vals=[expr1.val],
             )
 
+        if self.build is None:
+            raise TypeError(
+                "Operands must be Variable objects, numbers, or arrays; got " +
+                repr(expr1) + " and " + repr(expr2))
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
@@ -581,6 +589,11 @@ class ElementwiseSubtraction(Variable):
                 in_vals=[expr1.val],
             )
 
+        if self.build is None:
+            raise TypeError(
+                "Operands must be Variable objects, numbers, or arrays; got " +
+                repr(expr1) + " and " + repr(expr2))
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
@@ -651,6 +664,11 @@ class ElementwiseMultiplication(Variable):
                 in_vals=[expr1.val],
             )
 
+        if self.build is None:
+            raise TypeError(
+                "Operands must be Variable objects, numbers, or arrays; got " +
+                repr(expr1) + " and " + repr(expr2))
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
@@ -723,6 +741,11 @@ class ElementwiseDivision(Variable):
                 in_vals=[expr1.val],
             )
 
+        if self.build is None:
+            raise TypeError(
+                "Operands must be Variable objects, numbers, or arrays; got " +
+                repr(expr1) + " and " + repr(expr2))
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
@@ -766,10 +789,10 @@ class ElementwisePower(Variable):
                 in_vals=[expr1.val],
             )
 
-        else:
-            # TODO: constant array exponent
+        if self.build is None:
             # TODO: stock component where exponent is not a constant
-            return NotImplemented
+            raise TypeError("Exponent must be a number or an array; got " +
+                            repr(expr2))
 
     def __repr__(self):
         shape_str = "("
-- 
2.43.0


From d60fddb5441ee899afced014cbf1eff8a4fb356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 22/57] fix: raise an error when no execution order exists

---
 omtools/core/group.py    |  4 ++++
 omtools/core/variable.py | 22 +++++++++-------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 379dc9c..67da18f 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -80,6 +80,10 @@ def _post_setup(func: Callable) -> Callable:
         # feedbacks will only occur if there is coupling between
         # components)
         self.sorted_expressions = topological_sort(self._root)
+        if len(self.sorted_expressions) < len(self.nodes):
+            raise ValueError(
+                "Unable to determine execution order; an expression that is required by a subsystem depends on that subsystem"
+            )
 
         # Now that expressions are sorted, construct components
         for expr in reversed(self.sorted_expressions):
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 522b2ac..c5f971f 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -355,22 +355,18 @@ class Variable():
         """
         # NOTE: the cost of each node is computed once, after the costs of
         # all of its dependencies
-        computed = set()
-        stack = [self]
+        visited = set()
+        stack = [(self, False)]
         while stack != []:
-            node = stack[-1]
-            remaining = [
-                dependency for dependency in node.dependencies
-                if dependency not in computed
-            ]
-            if remaining != [] and node not in computed:
-                stack.extend(remaining)
-                continue
-            stack.pop()
-            if node not in computed:
-                computed.add(node)
+            node, ready = stack.pop()
+            if ready == True:
                 node._dag_cost = 1 + sum(dependency._dag_cost
                                          for dependency in node.dependencies)
+            elif node not in visited:
+                visited.add(node)
+                stack.append((node, True))
+                for dependency in node.dependencies:
+                    stack.append((dependency, False))
         return self._dag_cost
 
     def sort_dependency_branches(self, reverse_branch_sorting=False):
-- 
2.43.0


From fd9fdc97ce4e3a1a1757337a3c126d3bfff604d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 23/57] fix: products of expressions that are not inputs

---
 omtools/std/dot.py    | 2 +-
 omtools/std/inner.py  | 2 +-
 omtools/std/matmat.py | 2 +-
 omtools/std/outer.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/omtools/std/dot.py b/omtools/std/dot.py
index 58d35c1..0218542 100644
--- a/omtools/std/dot.py
+++ b/omtools/std/dot.py
@@ -40,7 +40,7 @@ def dot(expr1: Variable, expr2: Variable, axis=None):
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-            in_shape=expr1.shape[0],
+            in_shape=int(expr1.shape[0]),
             in_vals=[expr1.val, expr2.val],
         )
     else:
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index 063f3a5..0fa6489 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -35,7 +35,7 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-            in_shape=expr1.shape[0],
+            in_shape=int(expr1.shape[0]),
             in_vals=[expr1.val, expr2.val],
         )
 
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 2ae0541..c267ac2 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -47,7 +47,7 @@ def matmat(mat1, mat2):
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
             in_shapes=[mat1.shape, mat2_shape],
-            in_vals=[mat1.val, mat2.val.reshape(mat2_shape)],
+            in_vals=[mat1.val, (mat2.val * np.ones(mat2.shape)).reshape(mat2_shape)],
         )
     else:
         raise Exception("Cannot multiply: ", mat1.shape, "by", mat2.shape)
diff --git a/omtools/std/outer.py b/omtools/std/outer.py
index c22d2d0..5ba6bda 100644
--- a/omtools/std/outer.py
+++ b/omtools/std/outer.py
@@ -34,7 +34,7 @@ def outer(expr1: Variable, expr2: Variable):
         out.build = lambda: VectorOuterProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-            in_shapes=[expr1.shape[0], expr2.shape[0]],
+            in_shapes=[int(expr1.shape[0]), int(expr2.shape[0])],
             in_vals=[expr1.val, expr2.val],
         )
 
-- 
2.43.0


From f8292ef84bb5d3b00011dcf1caa179ff30c45f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 24/57] fix: respect the name and promotes of components added
 as subsystems

---
 omtools/core/group.py     | 5 ++++-
 omtools/core/subsystem.py | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 67da18f..e56963c 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -102,8 +102,11 @@ def _post_setup(func: Callable) -> Callable:
                 promotes = ['*']
                 promotes_inputs = None
                 promotes_outputs = None
-                if isinstance(sys, OMGroup):
+                if isinstance(expr, Subsystem):
+                    # use name given by user
                     pfx = ''
+                if isinstance(sys, OMGroup) or (isinstance(expr, Subsystem)
+                                                and expr.has_promotes()):
                     promotes = expr.promotes
                     promotes_inputs = expr.promotes_inputs
                     promotes_outputs = expr.promotes_outputs
diff --git a/omtools/core/subsystem.py b/omtools/core/subsystem.py
index 9e98edb..5917b36 100644
--- a/omtools/core/subsystem.py
+++ b/omtools/core/subsystem.py
@@ -24,6 +24,13 @@ class Subsystem(Variable):
 
         self.build = lambda: subsys
 
+    def has_promotes(self):
+        """
+        Check if the user specified which variables to promote
+        """
+        return not (self.promotes is None and self.promotes_inputs is None
+                    and self.promotes_outputs is None)
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
-- 
2.43.0


From 1ea5adef201bdec0f4df98eb561441b2dab8405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 25/57] fix: derivatives of implicit outputs wrt inputs of the
 other residuals

Total derivatives of coupled implicit outputs were zero with respect to the
inputs that only appear in the residual of another output, because OpenMDAO
considers outputs irrelevant to inputs without declared partials.
---
 omtools/comps/implicit_component.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 78a3d80..7712eeb 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -88,18 +88,6 @@ def _post_setup(func: Callable) -> Callable:
                                 shape=in_expr.shape,
                                 val=in_expr.val,
                             )
-                        self.declare_partials(
-                            of=out_name,
-                            wrt=in_expr.name,
-                        )
-
-                # residual wrt outputs, including outputs of the other
-                # residuals
-                for name in g.res_out_map.values():
-                    self.declare_partials(
-                        of=out_name,
-                        wrt=name,
-                    )
 
                 # set response and design variables to compute derivatives
                 # treat inputs and output as inputs to internal model
@@ -115,6 +103,13 @@ def _post_setup(func: Callable) -> Callable:
                     pass
                 else:
                     self.prob.model.add_design_var(out_name)
+
+        # declare partials of all outputs wrt all inputs and outputs; an
+        # output depends on the inputs for the other residuals if residuals
+        # depend on more than one output
+        for out_name in g.res_out_map.values():
+            for name in added:
+                self.declare_partials(of=out_name, wrt=name)
         self.prob.setup()
 
         # set initial values for inputs and output
@@ -271,7 +266,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         )
 
         for res_name, out_name in self.group.res_out_map.items():
-            for in_expr in self.all_inputs[out_name]:
+            for in_expr in in_exprs:
                 jacobian[out_name, in_expr.name] = jac[res_name, in_expr.name]
             for name in out_names:
                 jacobian[out_name, name] = jac[res_name, name]
-- 
2.43.0


From 46abc05495783c7743ba47747b1edf2e5adf155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 26/57] fix: reject operands of different shapes in sum and
 average

---
 omtools/std/average.py | 3 +++
 omtools/std/sum.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/omtools/std/average.py b/omtools/std/average.py
index ce2c19e..f010eca 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -28,6 +28,9 @@ def average(*operands: List[Variable], axes=None):
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
         out.add_dependency_node(expr)
+    for expr in operands:
+        if expr.shape != operands[0].shape:
+            raise ValueError("The shapes of the operands must match!")
 
     if axes == None:
         if len(operands) == 1:
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index 0061112..d5d27bf 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -26,6 +26,9 @@ def sum(*summands: List[Variable], axes=None):
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
         out.add_dependency_node(expr)
+    for expr in summands:
+        if expr.shape != summands[0].shape:
+            raise ValueError("The shapes of the operands must match!")
 
     if axes == None:
         if len(summands) == 1:
-- 
2.43.0


From e8d3ad21edee63dff014383562df80d5b3e25322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 27/57] fix: reject constant arrays that do not match the shape
 of the expression

---
 omtools/core/variable.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index c5f971f..5b1c7aa 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -456,6 +456,26 @@ def distinct_operands(*operands):
     return distinct
 
 
+def check_constant_shape(expr1, expr2):
+    """
+    Raise an error if one of the operands is an array that cannot be
+    broadcast to the shape of the other operand, a ``Variable`` object.
+
+    Parameters
+    ----------
+    expr1, expr2: Variable, number, or array
+        Operands of a binary expression
+    """
+    for expr, const in ((expr1, expr2), (expr2, expr1)):
+        if isinstance(expr, Variable) and isinstance(const, np.ndarray):
+            # NOTE: raises ValueError if shapes are not compatible
+            shape = np.broadcast_shapes(const.shape, expr.shape)
+            if np.prod(shape) != np.prod(expr.shape):
+                raise ValueError("Array with shape " + repr(const.shape) +
+                                 " does not match shape of expression " +
+                                 repr(expr))
+
+
 class ElementwiseAddition(Variable):
     """
     ``Variable`` object used to create a LinearCombinationComp for
@@ -463,6 +483,7 @@ class ElementwiseAddition(Variable):
     """
     def initialize(self, expr1, expr2):
         expr1, expr2 = distinct_operands(expr1, expr2)
+        check_constant_shape(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -532,6 +553,7 @@ class ElementwiseSubtraction(Variable):
     """
     def initialize(self, expr1, expr2):
         expr1, expr2 = distinct_operands(expr1, expr2)
+        check_constant_shape(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -605,6 +627,7 @@ class ElementwiseMultiplication(Variable):
     """
     def initialize(self, expr1, expr2):
         expr1, expr2 = distinct_operands(expr1, expr2)
+        check_constant_shape(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -680,6 +703,7 @@ class ElementwiseDivision(Variable):
     """
     def initialize(self, expr1, expr2):
         expr1, expr2 = distinct_operands(expr1, expr2)
+        check_constant_shape(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
-- 
2.43.0


From 7b95a9143ac52407a1d666ca4026dcdba3c05b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 28/57] fix: reject reshapes to another size, rotation axes
 other than x, y, z, and einsum subscripts that do not match when the
 expression is written

---
 omtools/std/reshape.py        |  4 ++++
 omtools/std/rotmat.py         |  2 ++
 omtools/utils/einsum_utils.py | 25 +++++++++++++++++++++++++
 3 files changed, 31 insertions(+)

diff --git a/omtools/std/reshape.py b/omtools/std/reshape.py
index 9d73f88..c2b13a3 100644
--- a/omtools/std/reshape.py
+++ b/omtools/std/reshape.py
@@ -1,5 +1,6 @@
 from omtools.comps.reshape_comp import ReshapeComp
 from omtools.core.variable import Variable
+import numpy as np
 
 
 def reshape(expr: Variable, new_shape: tuple):
@@ -16,6 +17,9 @@ def reshape(expr: Variable, new_shape: tuple):
     '''
     if not isinstance(expr, Variable):
         raise TypeError(expr, " is not an Variable object")
+    if np.prod(new_shape) != np.prod(expr.shape):
+        raise ValueError("Cannot reshape expression with shape " +
+                         repr(expr.shape) + " into shape " + repr(new_shape))
     out = Variable()
     out.shape = new_shape
     out.add_dependency_node(expr)
diff --git a/omtools/std/rotmat.py b/omtools/std/rotmat.py
index fb37ffb..0f3d729 100644
--- a/omtools/std/rotmat.py
+++ b/omtools/std/rotmat.py
@@ -18,6 +18,8 @@ def rotmat(expr: Variable, axis: str):
     '''
     if not isinstance(expr, Variable):
         raise TypeError(expr, " is not an Variable object")
+    if axis not in ('x', 'y', 'z'):
+        raise ValueError("Axis must be 'x', 'y', or 'z'; got " + repr(axis))
     out = Variable()
     out.add_dependency_node(expr)
 
diff --git a/omtools/utils/einsum_utils.py b/omtools/utils/einsum_utils.py
index 2fba882..5a6a113 100644
--- a/omtools/utils/einsum_utils.py
+++ b/omtools/utils/einsum_utils.py
@@ -5,6 +5,27 @@ def compute_einsum_shape(
     operation_aslist: List[str],
     in_shapes: Union[Tuple[int], List[Tuple[int]]],
 ):
+    # Raise an error if operands do not correspond to the subscripts
+    if len(in_shapes) != len(operation_aslist) - 1:
+        raise ValueError("Number of operands does not match subscripts")
+    sizes = {}
+    for tensor_rep, in_shape in zip(operation_aslist, in_shapes):
+        if len(tensor_rep) != len(in_shape):
+            raise ValueError("Subscripts " + tensor_rep +
+                             " do not match operand with shape " +
+                             repr(in_shape))
+        for char, size in zip(tensor_rep, in_shape):
+            # NOTE: axes with length 1 are broadcast
+            if sizes.setdefault(char, size) == 1:
+                sizes[char] = size
+            if size != 1 and sizes[char] != size:
+                raise ValueError("Operands have different sizes along " +
+                                 char)
+    for char in operation_aslist[-1]:
+        if char not in sizes or operation_aslist[-1].count(char) > 1:
+            raise ValueError("Output subscripts " + operation_aslist[-1] +
+                             " are invalid")
+
     out_shape = []
 
     if operation_aslist[-1] == '' :
@@ -24,6 +45,10 @@ def compute_einsum_shape(
 
 
 def einsum_subscripts_tolist(subscripts: str):
+    if subscripts.count('->') != 1 or not subscripts.replace(
+            '->', '').replace(',', '').replace(' ', '').isalpha():
+        raise ValueError("Subscripts " + repr(subscripts) + " are invalid")
+
     operation_aslist = []   
     tensor_rep = ''
     for char in subscripts:
-- 
2.43.0


From 1edb2ed356dcf6ba760b5d8badb837d3732dfc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 29/57] fix: derivatives of inner products over axes counted
 from the last

---
 omtools/comps/tensor_inner_product_comp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/tensor_inner_product_comp.py b/omtools/comps/tensor_inner_product_comp.py
index 0f679e7..5e1f7b9 100644
--- a/omtools/comps/tensor_inner_product_comp.py
+++ b/omtools/comps/tensor_inner_product_comp.py
@@ -51,6 +51,11 @@ class TensorInnerProductComp(ExplicitComponent):
         self.I0[I0_ind] += 1
         self.I1[I1_ind] += 1
 
+        # Axes are counted from the first axis, because the arrays used
+        # in compute_partials have more axes than the inputs
+        self.axes = [[axis % len(shape) for axis in np.atleast_1d(ax)]
+                     for ax, shape in zip(axes, in_shapes)]
+
         # Compute new axes locations of the partial matrix wrt first input
         num_total_axes0 = len(in_shapes[0])
         num_total_axes1 = len(in_shapes[1])
@@ -77,7 +82,7 @@ class TensorInnerProductComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_names = self.options['in_names']
         out_name = self.options['out_name']
-        axes = self.options['axes']
+        axes = self.axes
 
         temp_partials = np.tensordot(self.I0, inputs[in_names[1]], axes=axes)
 
-- 
2.43.0


From 623e94c71e4d00e4035958f40b6ddf7531efa11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 30/57] fix: reject inner products over axes that do not match,
 repeated axes and conditions that are not scalar when the expression is
 written

---
 omtools/std/average.py | 2 ++
 omtools/std/if_else.py | 2 ++
 omtools/std/inner.py   | 7 +++++++
 omtools/std/pnorm.py   | 2 ++
 omtools/std/sum.py     | 2 ++
 5 files changed, 15 insertions(+)

diff --git a/omtools/std/average.py b/omtools/std/average.py
index f010eca..81a3a59 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -50,6 +50,8 @@ def average(*operands: List[Variable], axes=None):
             )
     else:
         output_shape = np.delete(expr.shape, axes)
+        if len(output_shape) != len(expr.shape) - np.size(axes):
+            raise ValueError("An axis cannot be given more than once")
         out.shape = tuple(output_shape)
 
         if len(operands) == 1:
diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index d6e22e5..5bfe409 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -63,6 +63,8 @@ def if_else(
         raise ValueError(
             "Variable shapes must be the same for Variable objects for both branches of execution"
         )
+    if np.prod(condition.shape) != 1:
+        raise ValueError("The condition must be a scalar")
 
     condition, expr_true, expr_false = distinct_operands(
         condition, expr_true, expr_false)
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index 0fa6489..a61fdc8 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -40,6 +40,13 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         )
 
     else:
+        axes0 = np.atleast_1d(axes[0]) % len(expr1.shape)
+        axes1 = np.atleast_1d(axes[1]) % len(expr2.shape)
+        if len(set(axes0)) != len(axes0) or len(set(axes1)) != len(axes1):
+            raise ValueError("An axis cannot be given more than once")
+        if [expr1.shape[i] for i in axes0] != [expr2.shape[i] for i in axes1]:
+            raise ValueError("The shapes along the axes must match!")
+
         new_in0_shape = np.delete(list(expr1.shape), axes[0])
         new_in1_shape = np.delete(list(expr2.shape), axes[1])
         out.shape = tuple(np.append(new_in0_shape, new_in1_shape))
diff --git a/omtools/std/pnorm.py b/omtools/std/pnorm.py
index 659133f..cbed35f 100644
--- a/omtools/std/pnorm.py
+++ b/omtools/std/pnorm.py
@@ -43,6 +43,8 @@ def pnorm(expr, pnorm_type=2, axis=None):
             )
         else:
             output_shape = np.delete(expr.shape, axis)
+            if len(output_shape) != len(expr.shape) - np.size(axis):
+                raise ValueError("An axis cannot be given more than once")
             out.shape = tuple(output_shape)
 
             out.build = lambda: VectorizedAxisWisePnormComp(
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index d5d27bf..208818c 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -48,6 +48,8 @@ def sum(*summands: List[Variable], axes=None):
             )
     else:
         output_shape = np.delete(expr.shape, axes)
+        if len(output_shape) != len(expr.shape) - np.size(axes):
+            raise ValueError("An axis cannot be given more than once")
         out.shape = tuple(output_shape)
 
         if len(summands) == 1:
-- 
2.43.0


From 77bcca06dde685efe8032ef7858450dc9609df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 31/57] fix: subtraction of unsigned constants and division by
 constants of low precision

---
 omtools/core/variable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 5b1c7aa..3e8e7cc 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -603,7 +603,8 @@ class ElementwiseSubtraction(Variable):
                 out_name=self.name,
                 in_names=[expr1.name],
                 coeffs=1,
-                constant=-expr2,
+                # NOTE: -expr2 wraps around if expr2 is unsigned
+                constant=0. - expr2,
                 in_vals=[expr1.val],
             )
 
@@ -756,7 +757,9 @@ class ElementwiseDivision(Variable):
                 shape=expr1.shape,
                 out_name=self.name,
                 in_names=[expr1.name],
-                coeff=1 / expr2,
+                # NOTE: quotients of constants are not rounded to the
+                # precision of expr2
+                coeff=1 / np.asarray(expr2, dtype=float),
                 powers=1,
                 in_vals=[expr1.val],
             )
-- 
2.43.0


From 3a5bdb23d82669904c287c6ea159f614173ba02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:17 +0000
Subject: [PATCH 32/57] fix: reject expansions and reorderings whose subscripts
 do not match the axes

---
 omtools/std/expand.py               | 6 ++++++
 omtools/utils/reorder_axes_utils.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 6a84afe..3bbaa6d 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -42,6 +42,12 @@ def expand(expr: Variable, shape: tuple, indices=None):
             _,
         ) = decompose_shape_tuple(shape, expand_indices)
 
+        # axes of the expression must appear once and in the same order
+        kept = [index for index in out_indices if index in in_indices]
+        if kept != list(in_indices) or len(set(out_indices)) != len(
+                out_indices) or len(out_indices) != len(shape):
+            raise ValueError('Indices are invalid')
+
         if in_shape != expr.shape:
             raise ValueError('Shape or indices is invalid')
 
diff --git a/omtools/utils/reorder_axes_utils.py b/omtools/utils/reorder_axes_utils.py
index 69268ce..f233158 100644
--- a/omtools/utils/reorder_axes_utils.py
+++ b/omtools/utils/reorder_axes_utils.py
@@ -4,6 +4,12 @@ def compute_new_axes_locations(in_shape: tuple, operation: str):
         input_subscript = operation.split('->')[0]
         output_subscript = operation.split('->')[1]
 
+        if len(input_subscript) != len(in_shape) or sorted(
+                input_subscript) != sorted(output_subscript):
+            raise ValueError("Subscripts " + operation +
+                             " do not reorder the axes of an array of shape " +
+                             repr(in_shape))
+
         new_axes_locations = []
         for i in range(len(output_subscript)):
             new_axes_locations.append(input_subscript.index(output_subscript[i]))
-- 
2.43.0


From 22becaa0bc7d9c25c596238d23947e95f90965ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 33/57] fix: automatically generated names start with an
 underscore however many there are

---
 omtools/utils/gen_hex_name.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/utils/gen_hex_name.py b/omtools/utils/gen_hex_name.py
index bfaec8c..0c30fdc 100644
--- a/omtools/utils/gen_hex_name.py
+++ b/omtools/utils/gen_hex_name.py
@@ -27,7 +27,8 @@ def gen_hex_name(num: int):
         num -= remainder
         num = int(num / base)
         string_rep = char_set[remainder] + string_rep
-        prefix = prefix[:-1]
+        # NOTE: all names start with an underscore, however long they are
+        prefix = prefix[:-1] or "_"
         if num == 0:
             terminate = True
 
-- 
2.43.0


From 32ad1ae4b76742dc061294acca5028f5355258ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 34/57] fix: cyclic definitions start from the value the output
 was created with

---
 omtools/comps/pass_through_comp.py | 4 +++-
 omtools/core/explicit_output.py    | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/pass_through_comp.py b/omtools/comps/pass_through_comp.py
index effad03..5a75c30 100644
--- a/omtools/comps/pass_through_comp.py
+++ b/omtools/comps/pass_through_comp.py
@@ -7,6 +7,7 @@ class PassThroughComp(ExplicitComponent):
     def initialize(self):
         self.options.declare('expr', types=Variable)
         self.options.declare('name', types=str)
+        self.options.declare('val', default=1.)
 
     def setup(self):
         shape = self.options['expr'].shape
@@ -15,7 +16,8 @@ class PassThroughComp(ExplicitComponent):
         out_name = self.options['name']
 
         self.add_input(in_name, shape=shape, val=val)
-        self.add_output(out_name, shape=shape)
+        # initial value; the expression can depend on this output
+        self.add_output(out_name, shape=shape, val=self.options['val'])
 
         r = np.arange(np.prod(shape))
         self.declare_partials(
diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index f18bff7..74b32fe 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -81,6 +81,7 @@ class ExplicitOutput(Output):
         self.build = lambda: PassThroughComp(
             expr=expr,
             name=self.name,
+            val=self.val,
         )
 
     # TODO: index by tuple, not expression?
-- 
2.43.0


From fa4aae2d7e52e5f6baee552f900f00d324529889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 35/57] fix: norms use the current inputs for their derivatives
 and support complex step

The value of the last evaluation was stored and used for the partials, so
that total derivatives were wrong after partials were checked; and the
norm of the whole array dropped imaginary parts.
---
 omtools/comps/vectorized_axiswise_pnorm_comp.py | 7 ++++---
 omtools/comps/vectorized_pnorm_comp.py          | 8 +++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/omtools/comps/vectorized_axiswise_pnorm_comp.py b/omtools/comps/vectorized_axiswise_pnorm_comp.py
index 7f2735c..04713e1 100644
--- a/omtools/comps/vectorized_axiswise_pnorm_comp.py
+++ b/omtools/comps/vectorized_axiswise_pnorm_comp.py
@@ -85,8 +85,8 @@ class VectorizedAxisWisePnormComp(ExplicitComponent):
         pnorm_type = self.options['pnorm_type']
         axis = self.options['axis']
 
-        self.outputs = outputs[out_name] = np.sum(inputs[in_name]**pnorm_type,
-                                                  axis=axis)**(1 / pnorm_type)
+        outputs[out_name] = np.sum(inputs[in_name]**pnorm_type,
+                                   axis=axis)**(1 / pnorm_type)
 
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
@@ -94,8 +94,9 @@ class VectorizedAxisWisePnormComp(ExplicitComponent):
         pnorm_type = self.options['pnorm_type']
         axis = self.options['axis']
 
+        norm = np.sum(inputs[in_name]**pnorm_type, axis=axis)**(1 / pnorm_type)
         partials[out_name, in_name] = np.einsum(
-            self.operation, self.outputs**(1 - pnorm_type),
+            self.operation, norm**(1 - pnorm_type),
             inputs[in_name]**(pnorm_type - 1)).flatten()
 
 
diff --git a/omtools/comps/vectorized_pnorm_comp.py b/omtools/comps/vectorized_pnorm_comp.py
index b35eaa7..2b4ca5e 100644
--- a/omtools/comps/vectorized_pnorm_comp.py
+++ b/omtools/comps/vectorized_pnorm_comp.py
@@ -47,15 +47,17 @@ class VectorizedPnormComp(ExplicitComponent):
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        self.outputs = outputs[out_name] = np.linalg.norm(
-            inputs[in_name].flatten(), ord=pnorm_type)
+        # pnorm_type is even
+        outputs[out_name] = np.sum(inputs[in_name]**pnorm_type)**(1 /
+                                                                  pnorm_type)
 
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        partials[out_name, in_name] = self.outputs**(
+        norm = np.sum(inputs[in_name]**pnorm_type)**(1 / pnorm_type)
+        partials[out_name, in_name] = norm**(
             1 - pnorm_type) * inputs[in_name]**(pnorm_type - 1)
 
 
-- 
2.43.0


From 6fb71b737750cabd97252fc1cc5a9c4f54bfce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 36/57] fix: partials of products, powers and einsums can be
 computed under complex step

Complex partials were accumulated in place in real arrays, which raised an
exception, for example in Newton solves of a model under complex step.
---
 .../comps/arithmetic_comps/power_combination_comp.py  |  2 +-
 omtools/comps/einsum_comp_dense_derivs.py             | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index dcab91b..d0ad6a5 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -87,7 +87,7 @@ class PowerCombinationComp(ArrayExplicitComponent):
                     a = power
                     # derivative is zero where power is zero
                     b = np.where(power == 0, 0., power - 1.)
-                deriv *= a * inputs[in_name2]**b
+                deriv = deriv * (a * inputs[in_name2]**b)
 
             partials[out_name, in_name] = deriv.flatten()
 
diff --git a/omtools/comps/einsum_comp_dense_derivs.py b/omtools/comps/einsum_comp_dense_derivs.py
index 12ff250..6a9e11b 100644
--- a/omtools/comps/einsum_comp_dense_derivs.py
+++ b/omtools/comps/einsum_comp_dense_derivs.py
@@ -197,13 +197,16 @@ class EinsumComp(ExplicitComponent):
                 new_operation = new_operation[:-1] + '->'
                 new_operation += new_operation_aslist[-1]
 
-                partials[out_name, in_name] += np.einsum(
+                partial = np.einsum(
                     new_operation,
                     *(inputs[in_name] for in_name in in_names[:i]),
                     self.I[len(completed_in_names) - 1],
-                    *(inputs[in_name]
-                      for in_name in in_names[i + 1:])).reshape(
-                          partials[out_name, in_name].shape)
+                    *(inputs[in_name] for in_name in in_names[i + 1:]))
+                # not in place: partial is complex under complex step
+                partials[out_name, in_name] = partials[
+                    out_name,
+                    in_name] + partial.reshape(partials[out_name,
+                                                        in_name].shape)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 22cede3f288e699e85b40dcfc21e2f57ff2da813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 37/57] fix: implicit components work under complex step

The internal problem dropped the imaginary parts of inputs and outputs, so
that derivatives approximated by complex step were silently zero.
---
 omtools/comps/implicit_component.py | 32 +++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 7712eeb..414f55e 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -110,7 +110,8 @@ def _post_setup(func: Callable) -> Callable:
         for out_name in g.res_out_map.values():
             for name in added:
                 self.declare_partials(of=out_name, wrt=name)
-        self.prob.setup()
+        self.prob.setup(
+            force_alloc_complex=self._problem_meta['force_alloc_complex'])
 
         # set initial values for inputs and output
         for res_expr in self.group._root.dependencies:
@@ -176,15 +177,21 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self.all_outputs: Set[str] = set()
         self.derivs = None
 
-    def _set_values(self, inputs, outputs):
+    def _set_values(self, inputs, outputs, complex_step=None):
+        if complex_step is None:
+            complex_step = self.under_complex_step
+        if self.prob.model.under_complex_step != complex_step:
+            self.prob.final_setup()
+            self.prob.set_complex_step_mode(complex_step)
+        part = np.array if complex_step else np.real
         for res_expr in self.group._root.dependencies:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 out_name = self.group.res_out_map[res_expr.name]
-                self.prob[out_name] = outputs[out_name]
+                self.prob[out_name] = part(outputs[out_name])
                 for in_expr in self.all_inputs[out_name]:
                     if in_expr.name != out_name:
-                        self.prob[in_expr.name] = inputs[in_expr.name]
+                        self.prob[in_expr.name] = part(inputs[in_expr.name])
 
     def setup(self):
         pass
@@ -195,7 +202,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         return group
 
     def run(self, inputs, outputs, out_name, bracket):
-        self._set_values(inputs, outputs)
+        self._set_values(inputs, outputs, complex_step=False)
         prob = self.prob
         prob[out_name] = bracket
         prob.run_model()
@@ -249,8 +256,21 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
 
                     outputs[out_name] = 0.5 * xp + 0.5 * xn
 
+                    if self.under_complex_step:
+                        # imaginary part by implicit function theorem
+                        self._set_values(inputs, outputs)
+                        self.prob.run_model()
+                        res = np.array(np.imag(self.prob[res_expr.name]))
+                        self._set_values(inputs, outputs, complex_step=False)
+                        self.prob.run_model()
+                        jac = self.prob.compute_totals(of=[res_expr.name],
+                                                       wrt=[out_name])
+                        dx = np.linalg.solve(jac[res_expr.name, out_name],
+                                             res.flatten())
+                        outputs[out_name] -= 1j * dx.reshape(shape)
+
     def linearize(self, inputs, outputs, jacobian):
-        self._set_values(inputs, outputs)
+        self._set_values(inputs, outputs, complex_step=False)
         in_exprs = set()
         for inputs in self.all_inputs.values():
             in_exprs = in_exprs.union(inputs)
-- 
2.43.0


From 9af09e4ec06a2677cbf882c7d375f3be4368091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 38/57] fix: derivatives of minima and maxima use the current
 inputs

The derivatives of the last evaluation were stored, so that total
derivatives were wrong after partials were checked.
---
 omtools/comps/axiswise_max_comp.py    | 24 +++++++++++++++------
 omtools/comps/axiswise_min_comp.py    | 24 +++++++++++++++------
 omtools/comps/scalar_extremum_comp.py | 30 +++++++++++++++++----------
 3 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/omtools/comps/axiswise_max_comp.py b/omtools/comps/axiswise_max_comp.py
index 7da60ad..8930799 100644
--- a/omtools/comps/axiswise_max_comp.py
+++ b/omtools/comps/axiswise_max_comp.py
@@ -74,6 +74,23 @@ class AxisMaxComp(ExplicitComponent):
         result = g_max + 1.0 / rho * np.log(summation)
         outputs[out_name] = result
 
+    def compute_partials(self, inputs, partials):
+        in_name = self.options['in_name']
+        out_name = self.options['out_name']
+        axis = self.options['axis']
+        rho = self.options['rho']
+
+        con_val = inputs[in_name]
+
+        g_max = np.max(con_val, axis=axis)
+        g_diff = con_val - np.einsum(
+            self.einsum_str,
+            g_max,
+            self.ones,
+        )
+        exponents = np.exp(rho * g_diff)
+        summation = np.sum(exponents, axis=axis)
+
         dsum_dg = rho * exponents
         dKS_dsum = 1.0 / (rho * np.einsum(
             self.einsum_str,
@@ -82,12 +99,7 @@ class AxisMaxComp(ExplicitComponent):
         ))
         dKS_dg = dKS_dsum * dsum_dg
 
-        self.dKS_dg = dKS_dg
-
-    def compute_partials(self, inputs, partials):
-        in_name = self.options['in_name']
-        out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        partials[out_name, in_name] = dKS_dg.flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/axiswise_min_comp.py b/omtools/comps/axiswise_min_comp.py
index db80ae7..4d32554 100644
--- a/omtools/comps/axiswise_min_comp.py
+++ b/omtools/comps/axiswise_min_comp.py
@@ -73,6 +73,23 @@ class AxisMinComp(ExplicitComponent):
         result = -g_max - 1.0 / rho * np.log(summation)
         outputs[out_name] = result
 
+    def compute_partials(self, inputs, partials):
+        in_name = self.options['in_name']
+        out_name = self.options['out_name']
+        axis = self.options['axis']
+        rho = self.options['rho']
+
+        con_val = -inputs[in_name]
+
+        g_max = np.max(con_val, axis=axis)
+        g_diff = con_val - np.einsum(
+            self.einsum_str,
+            g_max,
+            self.ones,
+        )
+        exponents = np.exp(rho * g_diff)
+        summation = np.sum(exponents, axis=axis)
+
         dsum_dg = rho * exponents
         dKS_dsum = 1.0 / (rho * np.einsum(
             self.einsum_str,
@@ -81,12 +98,7 @@ class AxisMinComp(ExplicitComponent):
         ))
         dKS_dg = dKS_dsum * dsum_dg
 
-        self.dKS_dg = dKS_dg
-
-    def compute_partials(self, inputs, partials):
-        in_name = self.options['in_name']
-        out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        partials[out_name, in_name] = dKS_dg.flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/scalar_extremum_comp.py b/omtools/comps/scalar_extremum_comp.py
index 94d7052..6df04ea 100644
--- a/omtools/comps/scalar_extremum_comp.py
+++ b/omtools/comps/scalar_extremum_comp.py
@@ -46,7 +46,6 @@ class ScalarExtremumComp(ExplicitComponent):
         """
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        shape = self.options['shape']
         lower_flag = self.options['lower_flag']
         rho = self.options['rho']
 
@@ -66,15 +65,6 @@ class ScalarExtremumComp(ExplicitComponent):
         else:
             outputs[out_name] = result
 
-        dsum_dg = rho * exponents
-        dKS_dsum = 1.0 / (rho * summation * np.ones(shape))
-        dKS_dg = dKS_dsum * dsum_dg
-
-        self.dKS_dg = dKS_dg
-
-        # if lower_flag:
-        #     self.dKS_dg = -self.dKS_dg
-
     def compute_partials(self, inputs, partials):
         """
         Compute sub-jacobian parts. The model is assumed to be in an unscaled state.
@@ -87,7 +77,25 @@ class ScalarExtremumComp(ExplicitComponent):
         """
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        shape = self.options['shape']
+        lower_flag = self.options['lower_flag']
+        rho = self.options['rho']
+
+        if lower_flag:
+            g_max = np.max(-1.0 * inputs[in_name])
+            g_diff = -1.0 * inputs[in_name] - g_max
+        else:
+            g_max = np.max(inputs[in_name])
+            g_diff = inputs[in_name] - g_max
+
+        exponents = np.exp(rho * g_diff)
+        summation = np.sum(exponents)
+
+        dsum_dg = rho * exponents
+        dKS_dsum = 1.0 / (rho * summation * np.ones(shape))
+        dKS_dg = dKS_dsum * dsum_dg
+
+        partials[out_name, in_name] = dKS_dg.flatten()
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 1799c3b6fb3c70b3cf2e3c74c898e3801aa19867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 39/57] fix: group and component classes can be derived from
 one another (inherited or extended setup)

---
 omtools/comps/implicit_component.py | 16 ++++++++++++++--
 omtools/core/group.py               | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 414f55e..d792486 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -37,11 +37,20 @@ def _remove_nonresiduals(root: Variable):
 # TODO: disallow implicit variables in main group class
 def _post_setup(func: Callable) -> Callable:
     def _build_problem(self):
+        # setup of a parent class, called by that of a subclass
+        if self._in_setup == True:
+            func(self)
+            return
+
         # Discard internal problem built during a previous call to setup
         if len(self.all_inputs) > 0:
             self._create_problem()
 
-        func(self)
+        self._in_setup = True
+        try:
+            func(self)
+        finally:
+            self._in_setup = False
         # setup internal problem
         g = self.group
 
@@ -135,7 +144,9 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ProblemBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        # NOTE: a subclass can inherit setup
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ProblemBuilder, cls).__new__(cls, name, bases, attr)
 
 
@@ -162,6 +173,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             ['apply_linear', 'apply_multi_linear', 'solve_multi_linear']
         }
 
+        self._in_setup = False
         self._create_problem()
         self.maxiter = maxiter
         self.n2 = n2
diff --git a/omtools/core/group.py b/omtools/core/group.py
index e56963c..313b15a 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -35,12 +35,21 @@ def _post_setup(func: Callable) -> Callable:
         User defined method to define expressions and add subsystems for
         model execution
         """
+        # Group.setup() of a parent class, called by that of a subclass
+        if self._in_setup == True:
+            func(self)
+            return
+
         # Discard graph built during a previous call to Group.setup()
         if self._graph_built == True:
             self._reset_graph()
 
         # The user-defined Group.setup() method
-        func(self)
+        self._in_setup = True
+        try:
+            func(self)
+        finally:
+            self._in_setup = False
         self._graph_built = True
 
         # Create a record of all nodes in DAG
@@ -136,7 +145,9 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ComponentBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        # NOTE: a subclass can inherit setup
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ComponentBuilder, cls).__new__(cls, name, bases, attr)
 
 
@@ -166,6 +177,7 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.input_vals: dict = {}
         self.sorted_builders = []
         self.reverse_branch_sorting: bool = False
+        self._in_setup: bool = False
         self._reset_graph()
 
     def _reset_graph(self):
-- 
2.43.0


From aa51c9e1ef76b8787697987b3d186ab27b655e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 40/57] fix: rejected assignments leave the output as it was

---
 omtools/core/explicit_output.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 74b32fe..6db01e2 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -96,7 +96,6 @@ class ExplicitOutput(Output):
                 "Variable for output " + self.name +
                 ", which forms a cycle to be computed iteratively, is already defined"
             )
-        self.add_dependency_node(expr)
         tgt_indices = []
 
         # n-d array assignment
@@ -155,16 +154,19 @@ class ExplicitOutput(Output):
             raise KeyError("Repeated use of expression " + expr.name +
                            " in assignment to elements in " + self.name +
                            ". Consider using omtools.expand")
-        self._tgt_indices[expr] = (expr.shape, tgt_indices)
-        self._tgt_vals[expr] = expr.val
 
         # Check for overlapping indices
         self.overlapping_indices = self.checked_indices.intersection(
             tgt_indices)
-        self.checked_indices = self.checked_indices.union(tgt_indices)
         if len(self.overlapping_indices) > 0:
             raise ValueError("Indices used for assignment must not overlap")
 
+        # NOTE: assignments that are rejected leave the output as it was
+        self.checked_indices = self.checked_indices.union(tgt_indices)
+        self.add_dependency_node(expr)
+        self._tgt_indices[expr] = (expr.shape, tgt_indices)
+        self._tgt_vals[expr] = expr.val
+
         # NOTE: expressions can be given a different name after they are
         # assigned (when registered as an output)
         self.build = lambda: IndexedPassThroughComp(
-- 
2.43.0


From 24a8f77647fa77f306d6a0d3d184776a829bb55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 41/57] fix: groups and implicit components can be set up after
 a failed setup

---
 omtools/comps/implicit_component.py | 6 +++++-
 omtools/core/group.py               | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index d792486..a3a71b7 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -43,14 +43,17 @@ def _post_setup(func: Callable) -> Callable:
             return
 
         # Discard internal problem built during a previous call to setup
-        if len(self.all_inputs) > 0:
+        if self._problem_built == True:
             self._create_problem()
 
         self._in_setup = True
         try:
             func(self)
         finally:
+            # NOTE: the internal problem is discarded by the next call to
+            # setup even if this call fails
             self._in_setup = False
+            self._problem_built = True
         # setup internal problem
         g = self.group
 
@@ -188,6 +191,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
         self.derivs = None
+        self._problem_built = False
 
     def _set_values(self, inputs, outputs, complex_step=None):
         if complex_step is None:
diff --git a/omtools/core/group.py b/omtools/core/group.py
index 313b15a..78d726f 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -49,8 +49,10 @@ def _post_setup(func: Callable) -> Callable:
         try:
             func(self)
         finally:
+            # NOTE: the graph is discarded by the next call to setup even
+            # if this call fails
             self._in_setup = False
-        self._graph_built = True
+            self._graph_built = True
 
         # Create a record of all nodes in DAG
         self._root.register_nodes(self.nodes)
-- 
2.43.0


From 686ef0ce8dcbf28471698d264608cde1fa5c2f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 42/57] fix: errors raised in a with-block of a group are not
 masked

---
 omtools/core/group.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 78d726f..0899655 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -446,10 +446,9 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         Group
             Child ``Group`` object whosevariables are all promoted
         """
-        try:
-            group = Group()
-            self.add_subsystem(name, group, promotes=['*'])
-            yield group
-        finally:
-            group.setup()
-            pass
+        group = Group()
+        self.add_subsystem(name, group, promotes=['*'])
+        # NOTE: errors raised in the with-block are not masked by those of
+        # an incomplete group
+        yield group
+        group.setup()
-- 
2.43.0


From 0742512e59d0c9b09be9b12ec26cfa8488316900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 43/57] fix: indexed assignment needs indices for all axes of
 the output

---
 omtools/core/explicit_output.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 6db01e2..97e3598 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -135,6 +135,11 @@ class ExplicitOutput(Output):
                 "When assigning indices of an expression, key must be an int, a slice, or a tuple of slices"
             )
 
+        # Check that all axes are indexed
+        if not isinstance(key, tuple) and len(self.shape) != 1:
+            raise ValueError("Indices must be given for all axes of " +
+                             self.__repr__())
+
         # Check shape
         if np.array(tgt_indices).shape != expr.shape:
             print(np.array(tgt_indices).shape, expr.shape)
-- 
2.43.0


From 586c32e7e8b665613a528e9bb6b389f1f217e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:35 +0000
Subject: [PATCH 44/57] fix: einsum broadcasts axes of length 1 in any operand,
 with the partials of all the entries

---
 omtools/comps/einsum_comp_sparse_derivs.py | 5 ++++-
 omtools/utils/einsum_utils.py              | 6 +-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 7483bc1..8f83c4e 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -119,7 +119,10 @@ class SparsePartialEinsumComp(ExplicitComponent):
             surviving_axes_map = {}
             output_tensor_rep = operation_aslist[-1]
             for idx, axis in enumerate(operation_aslist[in_name_index]):
-                if axis in output_tensor_rep:
+                # NOTE: an axis that is broadcast contributes to every entry
+                # of the output along that axis
+                if axis in output_tensor_rep and in_shapes[in_name_index][
+                        idx] == self.out_shape[output_tensor_rep.index(axis)]:
                     surviving_axes_map[idx] = output_tensor_rep.index(axis)
 
             self.surviving_axes_map.append(surviving_axes_map)
diff --git a/omtools/utils/einsum_utils.py b/omtools/utils/einsum_utils.py
index 5a6a113..bf6272b 100644
--- a/omtools/utils/einsum_utils.py
+++ b/omtools/utils/einsum_utils.py
@@ -33,11 +33,7 @@ def compute_einsum_shape(
 
     else:
         for char in operation_aslist[-1]:
-            for i, tensor_rep in enumerate(operation_aslist[:-1]):
-                if (char in tensor_rep):
-                    shape_ind = tensor_rep.index(char)
-                    out_shape.append(in_shapes[i][shape_ind])
-                    break
+            out_shape.append(sizes[char])
         
         out_shape = tuple(out_shape)
     
-- 
2.43.0


From 832fddeca260d95ecbcb10d04432013fab3751a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:35 +0000
Subject: [PATCH 45/57] fix: reject einsum subscripts repeated over axes of
 different lengths of one operand

---
 omtools/utils/einsum_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omtools/utils/einsum_utils.py b/omtools/utils/einsum_utils.py
index bf6272b..bd094c2 100644
--- a/omtools/utils/einsum_utils.py
+++ b/omtools/utils/einsum_utils.py
@@ -18,7 +18,9 @@ def compute_einsum_shape(
             # NOTE: axes with length 1 are broadcast
             if sizes.setdefault(char, size) == 1:
                 sizes[char] = size
-            if size != 1 and sizes[char] != size:
+            # NOTE: but not against another axis of the same operand
+            if (size != 1 and sizes[char] != size
+                    or in_shape[tensor_rep.index(char)] != size):
                 raise ValueError("Operands have different sizes along " +
                                  char)
     for char in operation_aslist[-1]:
-- 
2.43.0


From 8a6db6edef6f0f244f0c86489ef3b62ff51337ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 46/57] fix: derivatives of LinearPowerCombinationComp at zero
 of inputs that a term does not depend on

---
 omtools/comps/linearpowercombination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/linearpowercombination.py b/omtools/comps/linearpowercombination.py
index b7842d9..6051c81 100644
--- a/omtools/comps/linearpowercombination.py
+++ b/omtools/comps/linearpowercombination.py
@@ -108,7 +108,8 @@ class LinearPowerCombinationComp(ExplicitComponent):
                     b = power
                     if in_name == in_name2:
                         a = power
-                        b = power - 1.
+                        # derivative is zero where power is zero
+                        b = 0. if power == 0 else power - 1.
 
                     term *= a * inputs[in_name2]**b
 
-- 
2.43.0


From e9a85adc74dac5c7890d2f06108cf1158510ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 47/57] fix: LinearPowerCombinationComp with the name of its
 only input

---
 omtools/comps/linearpowercombination.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omtools/comps/linearpowercombination.py b/omtools/comps/linearpowercombination.py
index 6051c81..0ac762c 100644
--- a/omtools/comps/linearpowercombination.py
+++ b/omtools/comps/linearpowercombination.py
@@ -59,6 +59,8 @@ class LinearPowerCombinationComp(ExplicitComponent):
             self.options['in_names'] = in_names
             self.options['powers'] = powers
             self.options['coeffs'] = coeffs
+        else:
+            self.options['in_names'] = get_names_list(self.options['in_names'])
 
         in_names = self.options['in_names']
         out_name = self.options['out_name']
-- 
2.43.0


From 6cef187eae81396a46a38dd25336b9309d327fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 48/57] fix: integer rho for the maximum and minimum of several
 expressions

---
 omtools/comps/elementwise_max_comp.py | 2 +-
 omtools/comps/elementwise_min_comp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/elementwise_max_comp.py b/omtools/comps/elementwise_max_comp.py
index a8b03de..a1f0613 100644
--- a/omtools/comps/elementwise_max_comp.py
+++ b/omtools/comps/elementwise_max_comp.py
@@ -7,7 +7,7 @@ class ElementwiseMaxComp(ExplicitComponent):
         self.options.declare('in_names', types=list)
         self.options.declare('out_name', types=str)
         self.options.declare('shape', types=tuple)
-        self.options.declare('rho', types=float)
+        self.options.declare('rho', types=(int, float))
         self.options.declare('vals', types=list)
 
     def setup(self):
diff --git a/omtools/comps/elementwise_min_comp.py b/omtools/comps/elementwise_min_comp.py
index d91abac..80c4d1e 100644
--- a/omtools/comps/elementwise_min_comp.py
+++ b/omtools/comps/elementwise_min_comp.py
@@ -7,7 +7,7 @@ class ElementwiseMinComp(ExplicitComponent):
         self.options.declare('in_names', types=list)
         self.options.declare('out_name', types=str)
         self.options.declare('shape', types=tuple)
-        self.options.declare('rho', types=float)
+        self.options.declare('rho', types=(int, float))
         self.options.declare('vals', types=list)
 
     def setup(self):
-- 
2.43.0


From b57e436231235afd3a5edbc4bd98855aaaf09a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 49/57] fix: reject first operands of matvec and matmat that
 are no matrices

---
 omtools/std/matmat.py | 3 +++
 omtools/std/matvec.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index c267ac2..f4eba5d 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -26,6 +26,9 @@ def matmat(mat1, mat2):
     out.add_dependency_node(mat1)
     out.add_dependency_node(mat2)
 
+    if len(mat1.shape) != 2:
+        raise Exception("Cannot multiply: ", mat1.shape, "by", mat2.shape)
+
     if mat1.shape[1] == mat2.shape[0] and len(mat2.shape) == 2:
         # Compute the output shape if both inputs are matrices
         out.shape = (mat1.shape[0], mat2.shape[1])
diff --git a/omtools/std/matvec.py b/omtools/std/matvec.py
index 0ab6651..bf23126 100644
--- a/omtools/std/matvec.py
+++ b/omtools/std/matvec.py
@@ -24,6 +24,9 @@ def matvec(mat1, vec1):
     out.add_dependency_node(mat1)
     out.add_dependency_node(vec1)
 
+    if len(mat1.shape) != 2:
+        raise Exception("Cannot multiply: ", mat1.shape, "by", vec1.shape)
+
     if mat1.shape[1] == vec1.shape[0] and len(vec1.shape) == 1:
 
         out.shape = (mat1.shape[0], )
-- 
2.43.0


From d2b7d96b1f4fc689ee4a15c7259e42ec6a269e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 50/57] fix: check the axes of inner products of vectors

---
 omtools/std/inner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index a61fdc8..66645c1 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -32,6 +32,11 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
     out.add_dependency_node(expr2)
 
     if len(expr1.shape) == 1 and len(expr2.shape) == 1:
+        # NOTE: vectors have one axis
+        if axes is not None:
+            for ax in axes:
+                if np.size(ax) != 1 or len(np.delete(expr1.shape, ax)) > 0:
+                    raise ValueError("Axes of vectors are invalid")
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-- 
2.43.0


From 545a73dceb1d2afb87c168de9b710d05c483adbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 51/57] fix: reject constants and exponents that are not real

---
 omtools/core/variable.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 3e8e7cc..69f30c6 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -459,7 +459,8 @@ def distinct_operands(*operands):
 def check_constant_shape(expr1, expr2):
     """
     Raise an error if one of the operands is an array that cannot be
-    broadcast to the shape of the other operand, a ``Variable`` object.
+    broadcast to the shape of the other operand, a ``Variable`` object,
+    or if it is not real.
 
     Parameters
     ----------
@@ -467,6 +468,9 @@ def check_constant_shape(expr1, expr2):
         Operands of a binary expression
     """
     for expr, const in ((expr1, expr2), (expr2, expr1)):
+        if isinstance(const, (numbers.Number, np.ndarray)):
+            if np.asarray(const).dtype.kind in 'cSU':
+                raise TypeError("Constants must be real; got " + repr(const))
         if isinstance(expr, Variable) and isinstance(const, np.ndarray):
             # NOTE: raises ValueError if shapes are not compatible
             shape = np.broadcast_shapes(const.shape, expr.shape)
@@ -787,6 +791,7 @@ class ElementwisePower(Variable):
             self.add_dependency_node(expr1)
         else:
             raise TypeError(expr1, " is not an Variable object or literal")
+        check_constant_shape(expr1, expr2)
         if isinstance(expr2, numbers.Number):
             self.shape = expr1.shape
             self.val = expr1.val
-- 
2.43.0


From b9dc6bfe049ffca77349ed1dc5fe073949655a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:29 +0000
Subject: [PATCH 52/57] fix: einsum with more than a couple of dozen labels

---
 omtools/comps/einsum_comp_dense_derivs.py  | 3 ++-
 omtools/comps/einsum_comp_sparse_derivs.py | 3 ++-
 omtools/utils/einsum_utils.py              | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/einsum_comp_dense_derivs.py b/omtools/comps/einsum_comp_dense_derivs.py
index 6a9e11b..c2fabb9 100644
--- a/omtools/comps/einsum_comp_dense_derivs.py
+++ b/omtools/comps/einsum_comp_dense_derivs.py
@@ -1,5 +1,6 @@
 import numpy as np
 from copy import deepcopy
+from string import ascii_letters
 import time
 from guppy import hpy
 
@@ -53,7 +54,7 @@ class EinsumComp(ExplicitComponent):
         in_vals = self.options['in_vals']
 
         # Find unused characters in operation
-        check_string = 'abcdefghijklmnopqrstuvwxyz'
+        check_string = ascii_letters
         self.unused_chars = ''
         for char in check_string:
             if not (char in operation):
diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 8f83c4e..7d6581b 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -1,5 +1,6 @@
 import numpy as np
 from copy import deepcopy
+from string import ascii_letters
 import time
 from guppy import hpy
 
@@ -53,7 +54,7 @@ class SparsePartialEinsumComp(ExplicitComponent):
         in_vals = self.options['in_vals']
 
         # Find unused characters in operation
-        check_string = 'abcdefghijklmnopqrstuvwxyz'
+        check_string = ascii_letters
         self.unused_chars = ''
         for char in check_string:
             if not (char in operation):
diff --git a/omtools/utils/einsum_utils.py b/omtools/utils/einsum_utils.py
index bd094c2..4f2e542 100644
--- a/omtools/utils/einsum_utils.py
+++ b/omtools/utils/einsum_utils.py
@@ -1,3 +1,4 @@
+from string import ascii_letters
 from typing import List, Union, Tuple
 
 
@@ -69,7 +70,7 @@ def einsum_subscripts_tolist(subscripts: str):
 
 def new_einsum_subscripts_to_string_and_list(subscripts: List[Tuple], scalar_output = False):
     # Assign characters to each axis_name in the tuples
-    unused_chars = 'abcdefghijklmnopqrstuvwxyz'
+    unused_chars = ascii_letters
     axis_map = {}
     operation_as_string = ''
     operation_aslist = []
-- 
2.43.0


From d7df4cde28f478d29f94c8654e2828297d95db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 53/57] fix: an option whose default is rejected stays as it
 was

---
 omtools/utils/options_dictionary.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/omtools/utils/options_dictionary.py b/omtools/utils/options_dictionary.py
index b3e938c..d0a02a2 100644
--- a/omtools/utils/options_dictionary.py
+++ b/omtools/utils/options_dictionary.py
@@ -289,6 +289,7 @@ class OptionsDictionary(object):
                                name)
 
         default_provided = default is not _undefined
+        previous = self._dict.get(name)
 
         self._dict[name] = {
             'value': default,
@@ -304,7 +305,15 @@ class OptionsDictionary(object):
 
         # If a default is given, check for validity
         if default_provided:
-            self._assert_valid(name, default)
+            try:
+                self._assert_valid(name, default)
+            except Exception:
+                # a declaration that is rejected has no effect
+                if previous is None:
+                    del self._dict[name]
+                else:
+                    self._dict[name] = previous
+                raise
 
     def undeclare(self, name):
         """
-- 
2.43.0


From 25b02f23a3f8494c4ab23f4c20c396e0c087799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 54/57] fix: acceptable option types given as a list or set

---
 omtools/utils/options_dictionary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/utils/options_dictionary.py b/omtools/utils/options_dictionary.py
index d0a02a2..aefc913 100644
--- a/omtools/utils/options_dictionary.py
+++ b/omtools/utils/options_dictionary.py
@@ -284,6 +284,10 @@ class OptionsDictionary(object):
             raise TypeError("In declaration of option '%s', the 'types' arg must be None, a type "
                             "or a tuple - not %s." % (name, types))
 
+        if isinstance(types, (set, list)):
+            # isinstance takes tuples only
+            types = tuple(types)
+
         if types is not None and values is not None:
             raise RuntimeError("'types' and 'values' were both specified for option '%s'." %
                                name)
-- 
2.43.0


From d00c132213d0cb9c1e51bba93f8fb304854ed870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:02 +0000
Subject: [PATCH 55/57] fix: an input declared more than once can be indexed
 each time

---
 omtools/core/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 69f30c6..f1e72a6 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -149,7 +149,8 @@ class Variable():
         if self._getitem_called == False:
             self._getitem_called = True
             self._decomp = Variable(shape=self.shape, val=val)
-            self._decomp.name = 'decompose_' + self.name
+            # NOTE: several expressions can have the same name (inputs)
+            self._decomp.name = 'decompose_' + self._decomp._id
             self._decomp.add_dependency_node(self)
 
         # store key as a tuple of tuples of ints
-- 
2.43.0


From 90463f82c7dd7568a75dbd9a669fc964bed8e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:27 +0000
Subject: [PATCH 56/57] fix: inputs of an implicit component that are declared
 after or in a subsystem

---
 omtools/comps/implicit_component.py  | 32 ++++++++++++++++++++++++----
 omtools/utils/collect_input_exprs.py |  3 +--
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index a3a71b7..2afc226 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -59,6 +59,27 @@ def _post_setup(func: Callable) -> Callable:
 
         _remove_nonresiduals(g._root)
 
+        self.prob.setup(
+            force_alloc_complex=self._problem_meta['force_alloc_complex'])
+
+        # names of variables computed by the internal problem; an input
+        # declared after a subsystem is not necessarily one of them
+        computed = set(
+            meta['prom_name'] for name, meta in g.get_io_metadata(
+                iotypes='output', metadata_keys=[]).items()
+            if name.startswith('_auto_ivc.') == False)
+
+        # inputs that only subsystems declare
+        sub_exprs = dict()
+        for meta in g.get_io_metadata(iotypes='input',
+                                      metadata_keys=['shape',
+                                                     'val']).values():
+            in_name = meta['prom_name']
+            if '.' not in in_name and in_name not in computed:
+                sub_exprs[in_name] = Input(in_name,
+                                           shape=meta['shape'],
+                                           val=meta['val'])
+
         # names of variables already added to this component
         added = set(g.res_out_map.values())
 
@@ -74,8 +95,13 @@ def _post_setup(func: Callable) -> Callable:
                 in_exprs = set(
                     expr
                     for expr in collect_input_exprs([], res_expr, res_expr)
-                    if expr.name == out_name
-                    or expr.name not in g.res_out_map.values())
+                    if expr.name not in computed and
+                    (expr.name == out_name
+                     or expr.name not in g.res_out_map.values()))
+                in_names = set(expr.name for expr in in_exprs)
+                in_exprs.update(expr for name, expr in sub_exprs.items()
+                                if name not in in_names
+                                and name not in g.res_out_map.values())
 
                 # accumulate inputs and outputs to set values
                 self.all_inputs[out_name] = in_exprs
@@ -122,8 +148,6 @@ def _post_setup(func: Callable) -> Callable:
         for out_name in g.res_out_map.values():
             for name in added:
                 self.declare_partials(of=out_name, wrt=name)
-        self.prob.setup(
-            force_alloc_complex=self._problem_meta['force_alloc_complex'])
 
         # set initial values for inputs and output
         for res_expr in self.group._root.dependencies:
diff --git a/omtools/utils/collect_input_exprs.py b/omtools/utils/collect_input_exprs.py
index 09fdc4f..ddd6552 100644
--- a/omtools/utils/collect_input_exprs.py
+++ b/omtools/utils/collect_input_exprs.py
@@ -19,8 +19,7 @@ def collect_input_exprs(
         for dependency in stack.pop().dependencies:
             if dependency.name != root.name and dependency not in visited:
                 visited.add(dependency)
-                if isinstance(dependency, Input) == True and len(
-                        dependency.dependencies) == 0:
+                if isinstance(dependency, Input) == True:
                     inputs.append(dependency)
                 stack.append(dependency)
     return inputs
-- 
2.43.0


From 4314d23f347f1966f414f9482c82cbf79e2f287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:31 +0000
Subject: [PATCH 57/57] fix: shapes of brackets are checked when they are given

---
 omtools/core/implicit_output.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index de6a5f2..05245bb 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -134,6 +134,10 @@ class ImplicitOutput(Output):
             raise ValueError("Variable for residual of " + self.name +
                              " is already defined")
 
+        # raises an error if the shape of a bracket does not match
+        for x in (x1, x2):
+            np.broadcast_to(x, self.shape)
+
         # set flag so that this expression is a residual and not an
         # output of an ImplicitComponent
         residual_expr.is_residual = True
-- 
2.43.0

