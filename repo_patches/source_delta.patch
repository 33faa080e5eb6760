From 0cb04daa211d10e408e4bf23f8d8eef50b485ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:08 +0000
Subject: [PATCH 01/16] fix: residual code of order 5 and 6 lacked mode labels
 and mangled the 1/(2*n!) prefactor

---
 termfactory/code_residual_equations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/termfactory/code_residual_equations.py b/termfactory/code_residual_equations.py
index b7472c0..0a3abb6 100644
--- a/termfactory/code_residual_equations.py
+++ b/termfactory/code_residual_equations.py
@@ -238,6 +238,8 @@ def generate_p_term(str_fac):
     numerator, denominator = arr[0], arr[1]
 
     if "/(2*" in str_fac:
+        # the factorial is the factor which follows the "2*", as in (1/(2*3!))
+        denominator = int(str_fac.split("*")[1].split("!")[0])
         return ("(" + str(numerator) + "/(2*" + str(math.factorial(denominator)) + "))")
     else:
         return ("(" + str(numerator) + "/" + str(math.factorial(denominator)) + ")")
@@ -343,7 +345,7 @@ w_dict = {
 }
 
 
-i_list = ['i', 'j', 'k', 'l']
+i_list = ['i', 'j', 'k', 'l', 'o', 'p', 'q', 'r']  # skips the letters in `k_list`
 k_list = ['m', 'n']
 
 
-- 
2.43.0


From 58adc3b497b9c9e665e6e028de2f81dc115fecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:29 +0000
Subject: [PATCH 02/16] fix: generators crashed on truncation rank 6, which the
 truncation limits allow (no order tag)

---
 termfactory/code_w_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/code_w_equations.py b/termfactory/code_w_equations.py
index b709241..e552dea 100644
--- a/termfactory/code_w_equations.py
+++ b/termfactory/code_w_equations.py
@@ -179,7 +179,7 @@ def _generate_w_operator_prefactor(tupl):
 
 num_tag = ["zero", "1st", "2nd", "3rd", "4th", "5th", "6th", "7th", "8th"]
 taylor_series_order_tag = ["", "singles", "doubles", "triples", "quadruples", "quintuples", "sextuples"]
-hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic"]
+hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic", "sextic"]
 einsum_surface_tags = "acdefghi"
 tag_str = "ijklmnop"
 
-- 
2.43.0


From e752de95dc5094ef3c68a5cbf35df31a3eec2677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:00 +0000
Subject: [PATCH 03/16] fix: full cc code lost every term but the last of those
 sharing h rank, t rank and prefactor

---
 termfactory/code_full_cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index e0631fd..b66b662 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -408,7 +408,7 @@ def _write_cc_einsum_python_from_list(truncations, t_term_list, opt_einsum=False
 
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         if permutations is None:
@@ -867,7 +867,7 @@ def _write_cc_optimized_paths_from_list(truncations, t_term_list, local_list_nam
         # we still need to account for output/omega permutations
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         for t in t_list:
-- 
2.43.0


From 85a539cc72b119ffca56f9f69db9099ca7f133de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:59 +0000
Subject: [PATCH 04/16] fix: condensed linked disconnected latex skipped
 external labels when h carries some

---
 termfactory/latex_full_cc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/termfactory/latex_full_cc.py b/termfactory/latex_full_cc.py
index bcdec50..d6777ea 100644
--- a/termfactory/latex_full_cc.py
+++ b/termfactory/latex_full_cc.py
@@ -1194,6 +1194,10 @@ def _make_latex(rank, term_list, linked_condense=False, unlinked_condense=False,
         if linked_condense:
             linked_list_index, new_t_list, t_offset_dict = _linked_condensed_adjust_t_terms(common_linked_factor_list, h, t_list)
 
+            # `t_offset_dict` already accounts for the external labels of h, which
+            # `_build_t_term_latex_group` is about to add (again)
+            t_offset_dict['unlinked'] -= h.m_o + h.n_o
+
             # prepare the t-amplitude terms
             t_string_list = _build_t_term_latex_group(new_t_list, h, t_offset_dict)
 
-- 
2.43.0


From 33ecc7551994d99f5bbcb1322a79795ffa3462c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:50 +0000
Subject: [PATCH 05/16] fix: z_t latex reused the lower dt/dtau labels on z
 when projecting with annihilation operators

---
 termfactory/latex_zhz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index 2259974..44362f0 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -1654,7 +1654,7 @@ def _build_fifth_z_term(LHS, Z):
         if z_m == 0:
             z_term_latex = f"\\hat{{{bold_z_latex}}}_{{0, \\gamma}}"
         else:
-            z_upper_label = f"{summation_indices[LHS.rank-z_m:LHS.rank]}"
+            z_upper_label = f"{summation_indices[LHS.n-z_m:LHS.n]}"
             z_term_latex = f"\\hat{{{bold_z_latex}}}^{{{z_upper_label}}}_{{\\gamma}}"
 
         # glue them together
-- 
2.43.0


From 7937bdbb0b9ae8b959bab65db5d7e3d1f19940ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:15 +0000
Subject: [PATCH 06/16] fix: latex ran out of summation labels for terms with
 more than five contracted z indices

---
 termfactory/common_imports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/common_imports.py b/termfactory/common_imports.py
index d13dfce..1b361ba 100644
--- a/termfactory/common_imports.py
+++ b/termfactory/common_imports.py
@@ -28,5 +28,5 @@ unlinked_indices = 'zyxwvuts'
 
 
 """ These are the indices used to label the h and z's in the generated latex"""
-z_summation_indices = 'klmno'
+z_summation_indices = 'klmnopqr'
 z_unlinked_indices = 'yxwvuts'
-- 
2.43.0


From efafa6c39731ea28cb7d65b7daba115cf845397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:28 +0000
Subject: [PATCH 07/16] fix: e^T H Z latex lost the multiplicity of suppressed
 duplicate terms

---
 termfactory/latex_eT_zhz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/termfactory/latex_eT_zhz.py b/termfactory/latex_eT_zhz.py
index 44a776d..a80d6d1 100644
--- a/termfactory/latex_eT_zhz.py
+++ b/termfactory/latex_eT_zhz.py
@@ -1753,7 +1753,8 @@ def _prepare_third_eTz_latex(
             if a not in temp_set:
                 unique_list.append(a)
                 temp_set.add(a)
-        return_list = unique_list
+        # each unique term represents all of its duplicates
+        return_list = [a if return_list.count(a) == 1 else f"{return_list.count(a)}{a}" for a in unique_list]
     else:
         unique_list = list(set(return_list))
         unique_list.sort()
-- 
2.43.0


From fd40a8b68e78969d3a06e220c6e67a93464323e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:01 +0000
Subject: [PATCH 08/16] fix: W latex printed unbraced two-digit exponents

---
 termfactory/latex_w_equations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/termfactory/latex_w_equations.py b/termfactory/latex_w_equations.py
index 3a7eb93..eac95e7 100644
--- a/termfactory/latex_w_equations.py
+++ b/termfactory/latex_w_equations.py
@@ -108,7 +108,9 @@ def ground_state_w_equations_latex(max_w_order, path="./ground_state_w_equations
                 if item_dict[n] == 1:
                     line += rf"\bt^{{{n}}}"
                 else:
-                    line += rf"(\bt^{{{n}}})^{item_dict[n]}"
+                    # an exponent with more than one digit has to be braced
+                    power = str(item_dict[n]) if item_dict[n] < 10 else f"{{{item_dict[n]}}}"
+                    line += rf"(\bt^{{{n}}})^{power}"
 
             terms.append(line)
 
-- 
2.43.0


From b58eef7de03c9bcab2ba69d6cf33063c19fca282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:43 +0000
Subject: [PATCH 09/16] fix: generating with some options given and the ansatz
 left at its default raised KeyError

---
 termfactory/_glue_.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/termfactory/_glue_.py b/termfactory/_glue_.py
index 59b1298..7afa2f4 100644
--- a/termfactory/_glue_.py
+++ b/termfactory/_glue_.py
@@ -30,11 +30,9 @@ def _generate_python(trunc, **kwargs):
         'lhs_rhs': default_lhs_rhs,
     }
 
-    # if empty dict
-    if not bool(kwargs):
-        kwargs = default_kwargs
-    else:
-        default_kwargs.update(kwargs)
+    # options which are not provided keep their default value
+    default_kwargs.update(kwargs)
+    kwargs = default_kwargs
 
     if kwargs['ansatz'] == 'full cc':
         assert tkeys.key_list_type(trunc) == 'fcc', "Truncations must be fcc type"
@@ -107,11 +105,9 @@ def _generate_latex(trunc, **kwargs):
         'ansatz': 'full cc',
         'lhs_rhs': default_lhs_rhs,
     }
-    # if empty dict
-    if not bool(kwargs):
-        kwargs = default_kwargs
-    else:
-        default_kwargs.update(kwargs)
+    # options which are not provided keep their default value
+    default_kwargs.update(kwargs)
+    kwargs = default_kwargs
 
     if kwargs['ansatz'] == 'full cc':
         assert tkeys.key_list_type(trunc) == 'fcc', "Truncations must be fcc type"
-- 
2.43.0


From 52cc6e14404bace2c6c42a8b1c2f11b4f066212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:01 +0000
Subject: [PATCH 10/16] fix: rejecting an unknown eTz truncation key raised
 AttributeError while building its message

---
 termfactory/truncations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/truncations.py b/termfactory/truncations.py
index 612b526..868df28 100644
--- a/termfactory/truncations.py
+++ b/termfactory/truncations.py
@@ -140,7 +140,7 @@ def _verify_eT_z_t_truncations(truncations):
     for key in truncations.keys():
         if key not in tkeys:
             raise Exception(
-                f"{key = } is not one of the valid keys for fcc.\n{tkeys.eT_key_list()}"
+                f"{key = } is not one of the valid keys for eTz.\n{tkeys.eTz_key_list()}"
             )
 
     # change in the future possibly? if we use enums for all lists?
-- 
2.43.0


From 761c356b84a6b4eab6894f8340ca513ac972095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:18 +0000
Subject: [PATCH 11/16] fix: z_t latex did not verify its truncations

---
 termfactory/latex_zhz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index 44362f0..da0d6dc 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -12,7 +12,7 @@ from common_imports import tab, z_summation_indices, z_unlinked_indices, summati
 from latex_full_cc import generate_omega_operator, generate_full_cc_hamiltonian_operator, _omega_joining_with_itself, _h_joining_with_itself, disconnected_namedtuple
 from namedtuple_defines import general_operator_namedtuple, hamiltonian_namedtuple
 import reference_latex_headers as headers
-from truncations import _verify_fcc_truncations
+from truncations import _verify_zhz_truncations
 from truncation_keys import TruncationsKeys as tkeys
 import log_conf
 
@@ -1727,6 +1727,7 @@ def generate_z_t_symmetric_latex(truncations, **kwargs):
     path = kwargs['path']
 
     # unpack truncations
+    _verify_zhz_truncations(truncations)
     maximum_h_rank = truncations[tkeys.H]
     maximum_cc_rank = truncations[tkeys.CC]
     omega_max_order = truncations[tkeys.P]
-- 
2.43.0


From b971050834bae10f4f63e35efdd0fb382c9a28e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:56 +0000
Subject: [PATCH 12/16] fix: -rf False on the command line removed the f terms

---
 termfactory/driver.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/termfactory/driver.py b/termfactory/driver.py
index 512dae9..952d0be 100644
--- a/termfactory/driver.py
+++ b/termfactory/driver.py
@@ -15,6 +15,15 @@ def dump_all_stdout_to_devnull():
     sys.stdout = open(os.devnull, 'w')
 
 
+def _string_to_bool(string):
+    """ `bool('False')` is True, so boolean command line values have to be parsed """
+    if string.lower() in ('true', 't', 'yes', 'y', '1'):
+        return True
+    if string.lower() in ('false', 'f', 'no', 'n', '0', ''):
+        return False
+    raise argparse.ArgumentTypeError(f'expected True or False, got {string!r}')
+
+
 def prepare_parsed_arguments():
     """ Wrapper for argparser setup """
 
@@ -33,7 +42,7 @@ def prepare_parsed_arguments():
     parser.add_argument('-t', nargs='+', type=int, default=None, help="Provided Truncations, example: -t 2 2 2 2")
     parser.add_argument('-a', '--ansatz', type=str, default=None, help="Specify Ansatz")
     parser.add_argument('-es', '--excited_state', action='store_true', help="Only ground state?")
-    parser.add_argument('-rf', '--remove_f_terms', type=bool, default=False, help="Choose to remove f terms")
+    parser.add_argument('-rf', '--remove_f_terms', type=_string_to_bool, default=False, help="Choose to remove f terms")
     parser.add_argument('-c', '--code', action='store_true', help="Generate LaTeX by default; `-c` generates code instead.")
     parser.add_argument('-lhs', action='store_true', help="Generate LaTeX by default; `-c` generates code instead.")
 
-- 
2.43.0


From 940132145a11b3288c29ebdb8bee4b846d281d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:30 +0000
Subject: [PATCH 13/16] fix: the order of full cc prefactors depended on the
 string hash seed

---
 termfactory/code_full_cc.py  | 4 ++--
 termfactory/latex_full_cc.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index b66b662..3a13b18 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -199,13 +199,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
diff --git a/termfactory/latex_full_cc.py b/termfactory/latex_full_cc.py
index d6777ea..0e69ed7 100644
--- a/termfactory/latex_full_cc.py
+++ b/termfactory/latex_full_cc.py
@@ -970,13 +970,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
-- 
2.43.0


From 6a5eaf7dee7b557ec3fd0269ee0a7629b97e4eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:32 +0000
Subject: [PATCH 14/16] fix: z_t latex printed an empty sum for projections
 without h z contractions

---
 termfactory/latex_zhz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index da0d6dc..e536d1d 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -1701,8 +1701,10 @@ def _generate_z_symmetric_latex_equations(LHS, H, Z, only_ground_state=True, rem
         raise NotImplementedError(not_implemented_yet_message)
         return_string += r'\\&-\Big(' + _build_second_z_term(LHS, H, Z, remove_f_terms) + r'\Big)'
 
-    # the third (addition) term
-    return_string += r'\\&+\sum\Big(' + _build_third_z_term(LHS, H, Z, remove_f_terms) + r'\Big)(1-\delta_{cb})'
+    # the third (addition) term, unless no pair of h and z can satisfy this projection
+    third_term = _build_third_z_term(LHS, H, Z, remove_f_terms)
+    if third_term != "":
+        return_string += r'\\&+\sum\Big(' + third_term + r'\Big)(1-\delta_{cb})'
 
     # the fourth (subtraction) term
     if not only_ground_state:  # If we are acting on the vaccum state then these terms don't exist pragma: no cover
-- 
2.43.0


From b30b3fa397a8a336afee82871ac9b27e8dcd1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:08 +0000
Subject: [PATCH 15/16] fix: load_trunc_from_JSON ignored the dictionary it was
 asked to overwrite

---
 termfactory/truncations.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/termfactory/truncations.py b/termfactory/truncations.py
index 868df28..20b3c0e 100644
--- a/termfactory/truncations.py
+++ b/termfactory/truncations.py
@@ -221,7 +221,7 @@ def load_trunc_from_JSON(path, dictionary=None):
     """
 
     # no arrays were provided so return newly created arrays after filling them with the appropriate values
-    if not bool(dictionary):
+    if dictionary is None:
         new_trunc_dict = _load_from_JSON(path)
 
         # TODO - we might want to make sure that none of the values in the dictionary have all zero values or are None
@@ -229,11 +229,9 @@ def load_trunc_from_JSON(path, dictionary=None):
         # verify_model_parameters(new_model_dict)
         return new_trunc_dict
 
-    # arrays were provided so fill them with the appropriate values
-    # else:
-        # verify_model_parameters(dictionary)
-        # _load_inplace_from_JSON(path, dictionary)
-        # check twice? might as well be cautious for the moment until test cases are written
-        # verify_model_parameters(dictionary)
+    # a dictionary was provided so overwrite its values (only once the file is known to be valid)
+    new_trunc_dict = _load_from_JSON(path)
+    dictionary.clear()
+    dictionary.update(new_trunc_dict)
 
     return
-- 
2.43.0


From ce5178fe26a0ce4d440119d39a4ef0ffcde9bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:16 +0000
Subject: [PATCH 16/16] fix: -s logged to stderr instead of stdout, with a
 mangled format

---
 termfactory/log_conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/termfactory/log_conf.py b/termfactory/log_conf.py
index b3b3f6a..96c21fc 100644
--- a/termfactory/log_conf.py
+++ b/termfactory/log_conf.py
@@ -1,4 +1,5 @@
 import logging
+import sys
 
 # -----------------------------------------------------------
 # LOGGING PREPERATIONS
@@ -52,10 +53,12 @@ class MyLogger(logging.Logger):
 def get_stdout_logger(*args, submodule_name=None, **kwargs):
     logging.setLoggerClass(MyLogger)
 
-    kwargs.setdefault('format', "[%(asctime)-13s] [%(name)s] [{levelname:^8}] [{module:^8}] (%(lineno)s): %(funcName)s(): %(message)s")
+    kwargs.setdefault('format', "[%(asctime)-13s] [%(name)s] [%(levelname)-8s] [%(module)-8s] (%(lineno)s): %(funcName)s(): %(message)s")
     kwargs.setdefault('datefmt', ["%m/%d/%Y %I:%M:%S %p ", "%d %I:%M:%S "][1])
     kwargs.setdefault('level', [logging.INFO, logging.DEBUG][0])
 
+    kwargs.setdefault('stream', sys.stdout)
+
     # apply the configuration parameters
     logging.basicConfig(**kwargs)
 
-- 
2.43.0

