From 1852f48c79dc192180f99c843e8d30281d5b4b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:37 +0000
Subject: [PATCH 01/17] fix: align availability columns with sorted alternative
 ids in convert_wide_to_long

---
 src/pylogit/choice_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index c9653d7..9c8831d 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1629,8 +1629,9 @@ def convert_wide_to_long(wide_data,
     # Create the observation id column,
     #####
     # Determine the various availability values for each observation
-    wide_availability_values = wide_data[list(
-        availability_vars.values())].values
+    # Order the availability columns by alternative id, as is done for all
+    # other alternative-specific values below
+    wide_availability_values = wide_data[sorted_availability_cols].values
     new_obs_id_col = (wide_availability_values *
                       wide_data[obs_id_col].values[:, None]).ravel()
     # Make sure the observation id column has an integer data type
-- 
2.43.0


From 3038d25b877980534239f079b4be3f9c437c4a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 02/17] fix: match choices to observations by id in
 convert_long_to_wide

---
 src/pylogit/choice_tools.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 9c8831d..3e45d7b 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1142,8 +1142,13 @@ def convert_long_to_wide(long_data,
     #####
     # Create the choice column in the wide data format
     #####
-    new_df[choice_col] = long_data.loc[long_data[choice_col] == 1,
-                                       alt_id_col].values
+    # Match each observation with its own choice, since the chosen rows need not
+    # be in the same order as the observations (e.g. if rows are interleaved).
+    chosen_rows = long_data.loc[long_data[choice_col] == 1]
+    obs_id_to_choice = dict(zip(chosen_rows[obs_id_col].values,
+                                chosen_rows[alt_id_col].values))
+    new_df[choice_col] = [obs_id_to_choice[x]
+                          for x in new_df[obs_id_col].values]
 
     #####
     # Create the availability columns
-- 
2.43.0


From a5bc8032760182ee4c439d10dc26ad38f6616d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:00 +0000
Subject: [PATCH 03/17] fix: ignore unavailable nests in the nested logit
 gradient

---
 src/pylogit/nested_choice_calcs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pylogit/nested_choice_calcs.py b/src/pylogit/nested_choice_calcs.py
index c949a38..2d916d7 100644
--- a/src/pylogit/nested_choice_calcs.py
+++ b/src/pylogit/nested_choice_calcs.py
@@ -593,8 +593,9 @@ def calc_nested_gradient(orig_nest_coefs,
     ##########
     # Calculate the term that onlny depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
-    # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # The sum is zero only when none of a nest's alternatives are available to
+    # an observation. Such nests do not affect that observation's gradient.
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters
@@ -770,8 +771,9 @@ def calc_bhhh_hessian_approximation(orig_nest_coefs,
     ##########
     # Calculate the term that only depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
-    # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # The sum is zero only when none of a nest's alternatives are available to
+    # an observation. Such nests do not affect that observation's gradient.
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters. Note we do not sum this object since
-- 
2.43.0


From 223c69f3c240617c7bf8760f300c3da29d92924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:37 +0000
Subject: [PATCH 04/17] fix: keep the draw dimension of mixed logit
 probabilities with a single draw

---
 src/pylogit/choice_calcs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_calcs.py b/src/pylogit/choice_calcs.py
index 5e24be5..871a50e 100644
--- a/src/pylogit/choice_calcs.py
+++ b/src/pylogit/choice_calcs.py
@@ -156,7 +156,10 @@ def calc_probabilities(beta,
     individual_denominators = np.asarray(rows_to_obs.transpose().dot(
                                                     long_exponentials))
     long_denominators = np.asarray(rows_to_obs.dot(individual_denominators))
-    if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+    # Keep one column per draw for 3D designs, even if there is only one draw
+    keep_2d = (len(long_exponentials.shape) > 1 and
+               (long_exponentials.shape[1] > 1 or len(design.shape) == 3))
+    if keep_2d:
         long_probs = (long_exponentials / long_denominators)
     else:
         long_probs = (long_exponentials / long_denominators).ravel()
@@ -170,7 +173,7 @@ def calc_probabilities(beta,
         # chosen_probs will be of shape (num_observations,)
         chosen_exponentials = np.asarray(
                          chosen_row_to_obs.transpose().dot(long_exponentials))
-        if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+        if keep_2d:
             chosen_probs = chosen_exponentials / individual_denominators
         else:
             chosen_probs = (chosen_exponentials /
-- 
2.43.0


From 9828c9d6433615a600a6730cc1badd33682dbd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:57 +0000
Subject: [PATCH 05/17] fix: pass observation weights given to fit_mle on to
 the estimators

fit_mle swallowed the weights keyword in **kwargs, so weighted estimation
silently ignored the weights and the ABC bootstrap intervals, which re-fit
the model under perturbed weights, collapsed to the point estimate.
---
 src/pylogit/asym_logit.py        | 3 ++-
 src/pylogit/clog_log.py          | 3 ++-
 src/pylogit/conditional_logit.py | 3 ++-
 src/pylogit/mixed_logit.py       | 3 ++-
 src/pylogit/nested_logit.py      | 3 ++-
 src/pylogit/scobit.py            | 3 ++-
 src/pylogit/uneven_logit.py      | 3 ++-
 7 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/pylogit/asym_logit.py b/src/pylogit/asym_logit.py
index 301dc9a..d0004d9 100644
--- a/src/pylogit/asym_logit.py
+++ b/src/pylogit/asym_logit.py
@@ -1073,7 +1073,8 @@ class MNAL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=kwargs.get('weights'))
         # Set the derivative functions for estimation
         asym_estimator.set_derivatives()
 
diff --git a/src/pylogit/clog_log.py b/src/pylogit/clog_log.py
index 59ac3d0..4022bc0 100644
--- a/src/pylogit/clog_log.py
+++ b/src/pylogit/clog_log.py
@@ -738,7 +738,8 @@ class MNCL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=kwargs.get('weights'))
         # Set the derivative functions for estimation
         clog_estimator.set_derivatives()
 
diff --git a/src/pylogit/conditional_logit.py b/src/pylogit/conditional_logit.py
index 9688b26..646e5c7 100644
--- a/src/pylogit/conditional_logit.py
+++ b/src/pylogit/conditional_logit.py
@@ -383,7 +383,8 @@ class MNL(base_mcm.MNDC_Model):
                                      ridge,
                                      zero_vector,
                                      split_param_vec,
-                                     constrained_pos=constrained_pos)
+                                     constrained_pos=constrained_pos,
+                                     weights=kwargs.get('weights'))
         # Set the derivative functions for estimation
         mnl_estimator.set_derivatives()
 
diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index 41716ac..e5cb129 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -594,7 +594,8 @@ class MixedLogit(base_mcm.MNDC_Model):
                                         ridge,
                                         zero_vector,
                                         split_param_vec,
-                                        constrained_pos=constrained_pos)
+                                        constrained_pos=constrained_pos,
+                                        weights=kwargs.get('weights'))
 
         # Perform one final check on the length of the initial values
         mixl_estimator.check_length_of_initial_values(init_vals)
diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index 5b3a6da..d5f42f3 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -529,7 +529,8 @@ class NestedLogit(base_mcm.MNDC_Model):
                           ridge,
                           zero_vector,
                           split_param_vec]
-        estimator_kwargs = {"constrained_pos": final_constrained_pos}
+        estimator_kwargs = {"constrained_pos": final_constrained_pos,
+                            "weights": kwargs.get("weights")}
         nested_estimator = NestedEstimator(*estimator_args,
                                            **estimator_kwargs)
 
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 13256f8..080f3b7 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -880,7 +880,8 @@ class MNSL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=kwargs.get('weights'))
         # Set the derivative functions for estimation
         scobit_estimator.set_derivatives()
 
diff --git a/src/pylogit/uneven_logit.py b/src/pylogit/uneven_logit.py
index 701e722..f68b662 100644
--- a/src/pylogit/uneven_logit.py
+++ b/src/pylogit/uneven_logit.py
@@ -881,7 +881,8 @@ class MNUL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=kwargs.get('weights'))
         # Set the derivative functions for estimation
         uneven_estimator.set_derivatives()
 
-- 
2.43.0


From 3ca0c1986a394dd2e682ddff69cf9ad3829ab100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:14 +0000
Subject: [PATCH 06/17] fix: pair past draws with individuals by id in
 panel_predict

---
 src/pylogit/mixed_logit.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index e5cb129..7eac743 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -870,7 +870,14 @@ class MixedLogit(base_mcm.MNDC_Model):
 
         # Create the 3D design matrix for those choice situations, using the
         # draws that were just taken from the mixing distributions of interest.
-        past_draw_list = [x[new_unique_mix_id_repeats, :] for x in draw_list]
+        # Note that the draws are ordered by individual as in the new data, but
+        # past_mappings is ordered by individual as in the original data.
+        new_id_positions = {mix_id: pos for pos, mix_id in
+                            enumerate(orig_order_unique_ids_new)}
+        past_ids = orig_order_unique_ids_old[old_unique_mix_id_repeats]
+        past_draw_rows = np.array([new_id_positions[mix_id]
+                                   for mix_id in past_ids], dtype=int)
+        past_draw_list = [x[past_draw_rows, :] for x in draw_list]
         design_args = (past_design_2d,
                        past_draw_list,
                        self.mixing_pos,
-- 
2.43.0


From 540faad3a8e9c8e870fade1b7d5963e43ff2d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:46 +0000
Subject: [PATCH 07/17] fix: match the denominator to the parameters with
 curvature in the ABC quadratic coefficient

---
 src/pylogit/bootstrap_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/bootstrap_abc.py b/src/pylogit/bootstrap_abc.py
index 91a5885..b773d68 100644
--- a/src/pylogit/bootstrap_abc.py
+++ b/src/pylogit/bootstrap_abc.py
@@ -743,7 +743,7 @@ def efron_quadratic_coef_abc(model_object,
     if diff_idx.any():
         quadratic_coef[diff_idx] =\
             ((term_1[diff_idx] - term_2[diff_idx] + term_3[diff_idx]) /
-             denominator)
+             denominator[diff_idx])
     return quadratic_coef
 
 
-- 
2.43.0


From 7489f60739fa7aeb6b13def1f2cfaed44b9a523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:24 +0000
Subject: [PATCH 08/17] fix: use the given estimation options when
 bootstrapping an MNL model

---
 src/pylogit/bootstrap_mle.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pylogit/bootstrap_mle.py b/src/pylogit/bootstrap_mle.py
index 7556ef7..aacf435 100644
--- a/src/pylogit/bootstrap_mle.py
+++ b/src/pylogit/bootstrap_mle.py
@@ -289,6 +289,11 @@ def retrieve_point_est(orig_model_obj,
         The dictionary returned by `scipy.optimize` after estimating the
         desired choice model.
     """
+    # If the desired model is an MNL, then estimate it with `fit_kwargs`. Any
+    # values in `mnl_fit_kwargs` take precedence.
+    if orig_model_obj.model_type == model_type_to_display_name["MNL"]:
+        mnl_fit_kwargs = dict(fit_kwargs, **(mnl_fit_kwargs or {}))
+
     # Get the MNL point estimate for the parameters of this bootstrap sample.
     mnl_point, mnl_obj = get_mnl_point_est(orig_model_obj,
                                            new_df,
-- 
2.43.0


From 16b37cb5b3ea04d71b6a0c8ab32b21959e84bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:50 +0000
Subject: [PATCH 09/17] fix: use the given weights when generating bootstrap
 replicates

---
 src/pylogit/bootstrap.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pylogit/bootstrap.py b/src/pylogit/bootstrap.py
index 0dab7ae..6d5dc54 100644
--- a/src/pylogit/bootstrap.py
+++ b/src/pylogit/bootstrap.py
@@ -333,6 +333,12 @@ class Boot(object):
                                               dfs_by_obs_id,
                                               boot_id_col=boot_id_col)
 
+            # Get the weights for the rows of the bootstrapped dataframe
+            if weights is not None:
+                fit_kwargs["weights"] =\
+                    np.concatenate([weights[obs_id_array == obs_id]
+                                    for obs_id in obs_id_per_sample[row, :]])
+
             # Go through the necessary estimation routine to bootstrap the MLE.
             current_results =\
                 retrieve_point_est(self.model_obj,
-- 
2.43.0


From 74fdc44f8b6b8d97434e1be7f70e8acfb3982d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:48 +0000
Subject: [PATCH 10/17] fix: treat a single column of parameter samples as
 two-dimensional

---
 src/pylogit/asym_logit.py   | 4 ++--
 src/pylogit/clog_log.py     | 2 +-
 src/pylogit/scobit.py       | 2 +-
 src/pylogit/uneven_logit.py | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pylogit/asym_logit.py b/src/pylogit/asym_logit.py
index d0004d9..7747d68 100644
--- a/src/pylogit/asym_logit.py
+++ b/src/pylogit/asym_logit.py
@@ -160,7 +160,7 @@ def _convert_eta_to_c(eta, ref_position):
     replace_list.remove(ref_position)
 
     # Initialize an array for the vector of shape parameters, c
-    if len(eta.shape) > 1 and eta.shape[1] > 1:
+    if len(eta.shape) > 1:
         # Get an array of zeros with shape
         # (num_possible_alternatives, num_parameter_samples). This is used when
         # working with samples from a Bayesian posterior distribution
@@ -318,7 +318,7 @@ def _asym_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/clog_log.py b/src/pylogit/clog_log.py
index 4022bc0..671481d 100644
--- a/src/pylogit/clog_log.py
+++ b/src/pylogit/clog_log.py
@@ -183,7 +183,7 @@ def _cloglog_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 080f3b7..0020849 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -157,7 +157,7 @@ def _scobit_utility_transform(systematic_utilities,
         needed_idxs = range(intercept_params.shape[0] + 1)
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/uneven_logit.py b/src/pylogit/uneven_logit.py
index f68b662..a360c71 100644
--- a/src/pylogit/uneven_logit.py
+++ b/src/pylogit/uneven_logit.py
@@ -213,7 +213,7 @@ def _uneven_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
-- 
2.43.0


From cc548c88bb988854d5504a2157b910a44edc882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:09 +0000
Subject: [PATCH 11/17] fix: evaluate scobit models without intercepts at
 several parameter samples

---
 src/pylogit/scobit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 0020849..c7ac79c 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -179,6 +179,8 @@ def _scobit_utility_transform(systematic_utilities,
     # Figure out what intercept values correspond to each row of the
     # systematic utilities
     long_intercepts = rows_to_alts.dot(all_intercepts)
+    if len(long_intercepts.shape) < len(systematic_utilities.shape):
+        long_intercepts = long_intercepts[:, np.newaxis]
 
     # Convert the shape parameters back into their 'natural parametrization'
     natural_shapes = np.exp(shape_params)
-- 
2.43.0


From d607af43465d2c74fd9573aade044437440ffa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:31 +0000
Subject: [PATCH 12/17] fix: respect constrained positions in the gradient
 norms of replicates

---
 src/pylogit/bootstrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pylogit/bootstrap.py b/src/pylogit/bootstrap.py
index 6d5dc54..84ccacb 100644
--- a/src/pylogit/bootstrap.py
+++ b/src/pylogit/bootstrap.py
@@ -666,6 +666,8 @@ class Boot(object):
         for row in iterable_for_iteration:
             current_params = replicate_array[row]
             gradient = estimation_obj.convenience_calc_gradient(current_params)
+            if constrained_pos is not None:
+                gradient[constrained_pos] = 0
             gradient_norms[row] = np.linalg.norm(gradient)
         return gradient_norms
 
-- 
2.43.0


From 332c57a856557680136eba81393d2e464b80213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:05 +0000
Subject: [PATCH 13/17] fix: leave the caller's mnl_fit_kwargs unaltered when
 bootstrapping

---
 src/pylogit/bootstrap_mle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pylogit/bootstrap_mle.py b/src/pylogit/bootstrap_mle.py
index aacf435..525f1d5 100644
--- a/src/pylogit/bootstrap_mle.py
+++ b/src/pylogit/bootstrap_mle.py
@@ -202,6 +202,8 @@ def get_mnl_point_est(orig_model_obj,
         if mnl_fit_kwargs is None:
             mnl_fit_kwargs = {}
 
+    # Copy the mnl_fit_kwargs so the user's dictionary is not altered
+    mnl_fit_kwargs = dict(mnl_fit_kwargs)
     # Alter the mnl_fit_kwargs to ensure that we only perform point estimation
     mnl_fit_kwargs["just_point"] = True
     # Use BFGS by default to estimate the MNL since it works well for the MNL.
-- 
2.43.0


From bef9d8443b7befbec3cc57abde6ee98438b3fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:55 +0000
Subject: [PATCH 14/17] fix: coefficient names follow the specification when
 names lists the variables in another order

create_design_matrix took the user's names in the order of the names
dictionary although the columns are in the order of the specification, so
coefficients were stored under each other's names.
---
 src/pylogit/choice_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 3e45d7b..e9d3c86 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -706,7 +706,8 @@ def create_design_matrix(long_form,
     # Use the list of names passed by the user, if the user passed such a list
     if names is not None:
         var_names = []
-        for value in names.values():
+        for variable in specification_dict:
+            value = names[variable]
             if isinstance(value, str):
                 var_names.append(value)
             else:
-- 
2.43.0


From 6490ac677899033a6381b4bc00686920c5902655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:03 +0000
Subject: [PATCH 15/17] fix: predict returns chosen and long probabilities for
 nested and mixed logit when both are asked for

---
 src/pylogit/base_multinomial_cm_v2.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 22cb803..3da9057 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1913,7 +1913,9 @@ class MNDC_Model(object):
             # Get the 'natural' nest coefficients for prediction
             new_natural_nests = naturalize_nest_coefs(new_nest_coefs)
             # Determine the return string for the nested logit model
-            if return_long_probs:
+            if return_long_probs and new_chosen_to_obs is not None:
+                return_string = "long_and_chosen_probs"
+            elif return_long_probs:
                 return_string = "long_probs"
             else:
                 return_string = "chosen_probs"
@@ -1957,6 +1959,10 @@ class MNDC_Model(object):
                            "chosen_row_to_obs": new_chosen_to_obs,
                            "return_long_probs": return_long_probs}
             prob_array = calc_probabilities(*prob_args, **prob_kwargs)
+            # Note that a tuple is returned if both the chosen and the long
+            # format probabilities are desired.
+            if isinstance(prob_array, tuple):
+                return tuple(x.mean(axis=1) for x in prob_array)
             return prob_array.mean(axis=1)
 
         else:
-- 
2.43.0


From 05c383cbbca54e270974485c21e21fcc1b405996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:03 +0000
Subject: [PATCH 16/17] fix: mixed logit on data whose columns are all integers

---
 src/pylogit/mixed_logit_calcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/mixed_logit_calcs.py b/src/pylogit/mixed_logit_calcs.py
index 1973eba..f77cac3 100755
--- a/src/pylogit/mixed_logit_calcs.py
+++ b/src/pylogit/mixed_logit_calcs.py
@@ -151,7 +151,7 @@ def create_expanded_design_for_mixing(design,
     # variables that are being mixed over.
     arrays_for_mixing = design[:, mixing_pos]
     expanded_design = np.concatenate((design, arrays_for_mixing),
-                                     axis=1).copy()
+                                     axis=1).astype(float)
     design_3d = np.repeat(expanded_design[:, None, :],
                           repeats=num_draws,
                           axis=1)
-- 
2.43.0


From b03a1cd056b863437bc46909bb33f5275e74b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:03 +0000
Subject: [PATCH 17/17] fix: mixed logit coefficients whose own names contain
 'Sigma '

---
 src/pylogit/base_multinomial_cm_v2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 3da9057..07845f6 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1397,11 +1397,11 @@ class MNDC_Model(object):
         # an error will be raised when creating the coefs series because we
         # will have added the mixing variables twice. The condition below
         # should prevent this error.
-        already_included = any(["Sigma " in x for x in self.ind_var_names])
-
-        if self.mixing_vars is not None and not already_included:
+        if self.mixing_vars is not None:
             new_ind_var_names = ["Sigma " + x for x in self.mixing_vars]
-            self.ind_var_names += new_ind_var_names
+            num_new_names = len(new_ind_var_names)
+            if self.ind_var_names[-num_new_names:] != new_ind_var_names:
+                self.ind_var_names += new_ind_var_names
         return None
 
     def store_fit_results(self, results_dict):
-- 
2.43.0

