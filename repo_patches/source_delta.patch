From a81d3c65cad0bb280bedb6886d59248f71b3a3f7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 01/11] fix: give the residual einsum enough index letters for
 orders 5 and 6

---
 termfactory/code_residual_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/code_residual_equations.py b/termfactory/code_residual_equations.py
index b7472c0..fd0875f 100644
--- a/termfactory/code_residual_equations.py
+++ b/termfactory/code_residual_equations.py
@@ -343,7 +343,7 @@ w_dict = {
 }
 
 
-i_list = ['i', 'j', 'k', 'l']
+i_list = ['i', 'j', 'k', 'l', 'o', 'p']
 k_list = ['m', 'n']
 
 
-- 
2.43.0


From a3870797af9920377fe5d0ace236b71214f4bf3d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:26:03 +0000
Subject: [PATCH 02/11] fix: keep the factorial when evaluating residual
 prefactors of the form 1/(2*n!)

---
 termfactory/code_residual_equations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/termfactory/code_residual_equations.py b/termfactory/code_residual_equations.py
index fd0875f..88c6933 100644
--- a/termfactory/code_residual_equations.py
+++ b/termfactory/code_residual_equations.py
@@ -234,7 +234,8 @@ def generate_p_term(str_fac):
     if str_fac == "(1/2) * ":  # pragma: no cover
         return "0.5"
 
-    arr = extract_numerator_denominator_from_string(str_fac)
+    # the argument of the factorial follows the `2*` (if there is one)
+    arr = extract_numerator_denominator_from_string(str_fac.replace("/(2*", "/("))
     numerator, denominator = arr[0], arr[1]
 
     if "/(2*" in str_fac:
-- 
2.43.0


From 42ede04b4d7433bf7d0ccd30af42f78b17e67f25 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:26:44 +0000
Subject: [PATCH 03/11] fix: keep earlier full-cc terms when a later term
 shares rank and prefactor

---
 termfactory/code_full_cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index e0631fd..b66b662 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -408,7 +408,7 @@ def _write_cc_einsum_python_from_list(truncations, t_term_list, opt_einsum=False
 
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         if permutations is None:
@@ -867,7 +867,7 @@ def _write_cc_optimized_paths_from_list(truncations, t_term_list, local_list_nam
         # we still need to account for output/omega permutations
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         for t in t_list:
-- 
2.43.0


From 4bfbfc17ab7179c8876ef8015b76daeaf84930e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 04/11] fix: full-CC latex, linked terms skip free labels when
 h carries some

The offset of the t amplitudes counted the free labels of h twice, so that
e.g. a cubic projection printed z, y and w instead of z, y and x.
---
 termfactory/latex_full_cc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/termfactory/latex_full_cc.py b/termfactory/latex_full_cc.py
index bcdec50..d8354e3 100644
--- a/termfactory/latex_full_cc.py
+++ b/termfactory/latex_full_cc.py
@@ -1194,6 +1194,9 @@ def _make_latex(rank, term_list, linked_condense=False, unlinked_condense=False,
         if linked_condense:
             linked_list_index, new_t_list, t_offset_dict = _linked_condensed_adjust_t_terms(common_linked_factor_list, h, t_list)
 
+            # `t_offset_dict` already counts the labels of h, and `_build_t_term_latex_group` adds them again
+            t_offset_dict['unlinked'] -= h.m_o + h.n_o
+
             # prepare the t-amplitude terms
             t_string_list = _build_t_term_latex_group(new_t_list, h, t_offset_dict)
 
-- 
2.43.0


From 2465a7cf85ffe6b145e769f58db7e413a3e2e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:25 +0000
Subject: [PATCH 05/11] fix: z_t latex, upper labels of z in the dt z products

For projections with both creation and annihilation operators the upper
labels of z were taken from the lower (annihilation) labels of the
projection, so a label appeared twice and another one was missing.
---
 termfactory/latex_zhz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index 2259974..44362f0 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -1654,7 +1654,7 @@ def _build_fifth_z_term(LHS, Z):
         if z_m == 0:
             z_term_latex = f"\\hat{{{bold_z_latex}}}_{{0, \\gamma}}"
         else:
-            z_upper_label = f"{summation_indices[LHS.rank-z_m:LHS.rank]}"
+            z_upper_label = f"{summation_indices[LHS.n-z_m:LHS.n]}"
             z_term_latex = f"\\hat{{{bold_z_latex}}}^{{{z_upper_label}}}_{{\\gamma}}"
 
         # glue them together
-- 
2.43.0


From bff32db4fcb4a857854a133b4007721e2cb59210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:25 +0000
Subject: [PATCH 06/11] fix: enough summation labels for rank six Z and H
 operators

A sixth contraction between h and z (or t) was silently printed without
its label.
---
 termfactory/common_imports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/common_imports.py b/termfactory/common_imports.py
index d13dfce..1b361ba 100644
--- a/termfactory/common_imports.py
+++ b/termfactory/common_imports.py
@@ -28,5 +28,5 @@ unlinked_indices = 'zyxwvuts'
 
 
 """ These are the indices used to label the h and z's in the generated latex"""
-z_summation_indices = 'klmno'
+z_summation_indices = 'klmnopqr'
 z_unlinked_indices = 'yxwvuts'
-- 
2.43.0


From 12bc1a15d6c4615430ea46a3a2ac3afcc6a74170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:04 +0000
Subject: [PATCH 07/11] fix: name for rank six truncations

The largest Hamiltonian and Z ranks that pass the truncation check are
six, for which generating python code raised an IndexError.
---
 termfactory/code_w_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/code_w_equations.py b/termfactory/code_w_equations.py
index b709241..e552dea 100644
--- a/termfactory/code_w_equations.py
+++ b/termfactory/code_w_equations.py
@@ -179,7 +179,7 @@ def _generate_w_operator_prefactor(tupl):
 
 num_tag = ["zero", "1st", "2nd", "3rd", "4th", "5th", "6th", "7th", "8th"]
 taylor_series_order_tag = ["", "singles", "doubles", "triples", "quadruples", "quintuples", "sextuples"]
-hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic"]
+hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic", "sextic"]
 einsum_surface_tags = "acdefghi"
 tag_str = "ijklmnop"
 
-- 
2.43.0


From 913dcc24f90755e79c87bdbc3fa5cd699514517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:40 +0000
Subject: [PATCH 08/11] fix: full-CC prefactors no longer depend on the hash
 seed

The order of the factors was taken from the iteration order of a set of
strings, so the same request gave different files in different runs.
---
 termfactory/code_full_cc.py  | 4 ++--
 termfactory/latex_full_cc.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index b66b662..3a13b18 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -199,13 +199,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
diff --git a/termfactory/latex_full_cc.py b/termfactory/latex_full_cc.py
index d8354e3..65075dd 100644
--- a/termfactory/latex_full_cc.py
+++ b/termfactory/latex_full_cc.py
@@ -970,13 +970,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
-- 
2.43.0


From 30fba02bdc9a2bfe439fdc3424cb30b4beece4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:40 +0000
Subject: [PATCH 09/11] fix: refuse out of range truncations for the z_t latex

generate_z_t_symmetric_latex was the only generator that did not verify its
truncations; beyond the maxima it silently ran out of labels.
---
 termfactory/latex_zhz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index 44362f0..da0d6dc 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -12,7 +12,7 @@ from common_imports import tab, z_summation_indices, z_unlinked_indices, summati
 from latex_full_cc import generate_omega_operator, generate_full_cc_hamiltonian_operator, _omega_joining_with_itself, _h_joining_with_itself, disconnected_namedtuple
 from namedtuple_defines import general_operator_namedtuple, hamiltonian_namedtuple
 import reference_latex_headers as headers
-from truncations import _verify_fcc_truncations
+from truncations import _verify_zhz_truncations
 from truncation_keys import TruncationsKeys as tkeys
 import log_conf
 
@@ -1727,6 +1727,7 @@ def generate_z_t_symmetric_latex(truncations, **kwargs):
     path = kwargs['path']
 
     # unpack truncations
+    _verify_zhz_truncations(truncations)
     maximum_h_rank = truncations[tkeys.H]
     maximum_cc_rank = truncations[tkeys.CC]
     omega_max_order = truncations[tkeys.P]
-- 
2.43.0


From a37a8c53fda8235945875a0925fa81aa5f99ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:51 +0000
Subject: [PATCH 10/11] fix: update of an existing thermal W document keeps its
 preamble only

A second run on the file of a first one kept its first 29 lines, equations
included, as the header, and closed a document that was never begun.
---
 termfactory/latex_w_equations.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/termfactory/latex_w_equations.py b/termfactory/latex_w_equations.py
index 3a7eb93..eb75fa7 100644
--- a/termfactory/latex_w_equations.py
+++ b/termfactory/latex_w_equations.py
@@ -245,17 +245,19 @@ def excited_state_w_equations_latex(max_w_order, path="./thermal_w_equations.tex
         latex_code = latex_code[:-3] + ")\\\\ \n\n"
     latex_code += "\\end{equation}\n"
 
-    # if file already exists then update it
+    # the preamble of the file if it already is a latex document
+    header = ''
     if os.path.isfile(path): # pragma: no cover
-
-        # read the entire file contents
         with open(path, 'r') as fp:
             file_contents = fp.readlines()
-
-        # keep only the header
-        header = ''.join(file_contents[0:29])
-
-        # write the new header with latex code attached
+        for i, line in enumerate(file_contents):
+            if line.strip() == r'\begin{document}':
+                header = ''.join(file_contents[0:i+1])
+                break
+
+    # if the document already exists then update it
+    if header != '': # pragma: no cover
+        # write the header with latex code attached
         with open(path, 'w') as fp:
             fp.write(header + latex_code + r'\end{document}')
 
-- 
2.43.0


From 57e841e2533ba3ffa2531f9b0f77ee997af928da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:30 +0000
Subject: [PATCH 11/11] fix: brace powers of more than one digit in the W
 equations

(t^1)^10 is typeset as (t^1)^1 0: from order 10 on the W document printed the
wrong power.
---
 termfactory/latex_w_equations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/termfactory/latex_w_equations.py b/termfactory/latex_w_equations.py
index eb75fa7..3bbf140 100644
--- a/termfactory/latex_w_equations.py
+++ b/termfactory/latex_w_equations.py
@@ -51,6 +51,11 @@ def generate_w_prefactor(w_dict):
     return result
 
 
+def _exponent(n):
+    """ a superscript of more than one digit needs braces, `^10` is typeset as a power of 1 followed by a 0"""
+    return f"{n}" if n < 10 else f"{{{n}}}"
+
+
 def generate_labels_on_w(order, is_excited=True):
     """ x """
     start = list(range(1, order+1))
@@ -108,7 +113,7 @@ def ground_state_w_equations_latex(max_w_order, path="./ground_state_w_equations
                 if item_dict[n] == 1:
                     line += rf"\bt^{{{n}}}"
                 else:
-                    line += rf"(\bt^{{{n}}})^{item_dict[n]}"
+                    line += rf"(\bt^{{{n}}})^{_exponent(item_dict[n])}"
 
             terms.append(line)
 
@@ -232,7 +237,7 @@ def excited_state_w_equations_latex(max_w_order, path="./thermal_w_equations.tex
                     power = ""
                 else:
                     latex_code += "("
-                    power += f")^{item_dict[n]}"
+                    power += f")^{_exponent(item_dict[n])}"
 
                 if n[0] == 0:
                     latex_code += f"\\bt_{{{n[1]}}}"
-- 
2.43.0

