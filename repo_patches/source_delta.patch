From 5eec0f047c760e89320451ef3307c401eec65d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:08 +0000
Subject: [PATCH 01/80] fix: make safe_file_dump re-entrant and durable

A signal handler that checkpoints while a dump to the same file is in
progress shared its temporary file, which could leave a corrupt or stale
checkpoint. Use a temporary file per call, sync it before renaming and
rename atomically.
---
 bilby/core/utils/io.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index cc8329e..3e0b630 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -3,6 +3,7 @@ import inspect
 import json
 import os
 import shutil
+import uuid
 from importlib import import_module
 from pathlib import Path
 from datetime import timedelta
@@ -385,10 +386,19 @@ def safe_file_dump(data, filename, module):
     """
     if isinstance(module, str):
         module = import_module(module)
-    temp_filename = filename + ".temp"
-    with open(temp_filename, "wb") as file:
-        module.dump(data, file)
-    shutil.move(temp_filename, filename)
+    # The temporary file is unique to this call as a signal handler may
+    # checkpoint to the same file while this dump is in progress
+    temp_filename = f"{filename}.{uuid.uuid4().hex}.temp"
+    try:
+        with open(temp_filename, "wb") as file:
+            module.dump(data, file)
+            file.flush()
+            os.fsync(file.fileno())
+        os.replace(temp_filename, filename)
+    except BaseException:
+        if os.path.exists(temp_filename):
+            os.remove(temp_filename)
+        raise
 
 
 def move_old_file(filename, overwrite=False):
-- 
2.43.0


From 1d4fe137621eb5f4a5fea165ad1437a372d048f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 02/80] fix: count whole days in dynesty run statistics
 sampling time

---
 bilby/core/sampler/dynesty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index 539531c..86898dc 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -650,7 +650,7 @@ class Dynesty(NestedSampler):
         self.result.meta_data["run_statistics"] = dict(
             nlikelihood=self.result.num_likelihood_evaluations,
             neffsamples=neffsamples,
-            sampling_time_s=self.sampling_time.seconds,
+            sampling_time_s=self.sampling_time.total_seconds(),
             ncores=self.kwargs.get("queue_size", 1),
         )
         self.kwargs["rstate"] = None
-- 
2.43.0


From 6146ea4bdf9d52960a5c8166ba361488a2ff3761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 03/80] fix: treat numeric sampling times as seconds in
 run_sampler

---
 bilby/core/sampler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index ef65ce1..254d7b4 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -309,7 +309,7 @@ def run_sampler(
         if result.sampling_time is None:
             result.sampling_time = end_time - start_time
         elif isinstance(result.sampling_time, (float, int)):
-            result.sampling_time = datetime.timedelta(result.sampling_time)
+            result.sampling_time = datetime.timedelta(seconds=result.sampling_time)
 
         logger.info(f"Sampling time: {result.sampling_time}")
         # Convert sampling time into seconds
-- 
2.43.0


From 6295fbd97de370bbeab2cca2919c018125279255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:01 +0000
Subject: [PATCH 04/80] fix: save results through a temporary file and without
 side effects

---
 bilby/core/result.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index c5d27bf..0803ab1 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -2,6 +2,7 @@ import datetime
 import inspect
 import json
 import os
+import uuid
 from collections import namedtuple
 from copy import copy
 from importlib import import_module
@@ -784,17 +785,19 @@ class Result(object):
         if filename is None:
             filename = result_file_name(outdir, self.label, extension, gzip)
 
-        move_old_file(filename, overwrite)
-
         # Convert the prior to a string representation for saving on disk
         dictionary = self._get_save_data_dictionary()
 
         # Convert callable sampler_kwargs to strings
         if dictionary.get('sampler_kwargs', None) is not None:
-            for key in dictionary['sampler_kwargs']:
-                if hasattr(dictionary['sampler_kwargs'][key], '__call__'):
-                    dictionary['sampler_kwargs'][key] = str(dictionary['sampler_kwargs'])
+            dictionary['sampler_kwargs'] = {
+                key: str(value) if hasattr(value, '__call__') else value
+                for key, value in dictionary['sampler_kwargs'].items()
+            }
 
+        # Write to a temporary file so that an existing result is only replaced
+        # once the new one is complete
+        temp_filename = f"{filename}.{uuid.uuid4().hex}.temp"
         try:
             # convert priors to JSON dictionary for both JSON and hdf5 files
             if extension == 'json':
@@ -803,21 +806,24 @@ class Result(object):
                     import gzip
                     # encode to a string
                     json_str = json.dumps(dictionary, cls=BilbyJsonEncoder).encode('utf-8')
-                    with gzip.GzipFile(filename, 'w') as file:
+                    with gzip.GzipFile(temp_filename, 'w') as file:
                         file.write(json_str)
                 else:
-                    with open(filename, 'w') as file:
+                    with open(temp_filename, 'w') as file:
                         json.dump(dictionary, file, indent=2, cls=BilbyJsonEncoder)
             elif extension == 'hdf5':
                 import h5py
                 dictionary["__module__"] = self.__module__
                 dictionary["__name__"] = self.__class__.__name__
-                with h5py.File(filename, 'w') as h5file:
+                with h5py.File(temp_filename, 'w') as h5file:
                     recursively_save_dict_contents_to_group(h5file, '/', dictionary)
-            elif extension == 'pkl':
-                safe_file_dump(self, filename, "dill")
+            elif extension in ['pkl', 'pickle']:
+                safe_file_dump(self, temp_filename, "dill")
             else:
                 raise ValueError("Extension type {} not understood".format(extension))
+            if not overwrite:
+                move_old_file(filename)
+            os.replace(temp_filename, filename)
         except Exception as e:
             filename = ".".join(filename.split(".")[:-1]) + ".pkl"
             safe_file_dump(self, filename, "dill")
@@ -825,6 +831,9 @@ class Result(object):
                 "\n\nSaving the data has failed with the following message:\n"
                 "{}\nData has been dumped to {}.\n\n".format(e, filename)
             )
+        finally:
+            if os.path.exists(temp_filename):
+                os.remove(temp_filename)
 
     def save_posterior_samples(self, filename=None, outdir=None, label=None):
         """ Saves posterior samples to a file
-- 
2.43.0


From 5a9102430f84d8355c3267f20a7a30369ddde814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:01 +0000
Subject: [PATCH 05/80] fix: keep empty dictionaries when saving to hdf5

---
 bilby/core/utils/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index 3e0b630..a9cccc2 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -367,6 +367,7 @@ def recursively_save_dict_contents_to_group(h5file, path, dic):
     for key, item in dic.items():
         item = encode_for_hdf5(key, item)
         if isinstance(item, dict):
+            h5file.require_group(path + key)
             recursively_save_dict_contents_to_group(h5file, path + key + "/", item)
         else:
             h5file[path + key] = item
-- 
2.43.0


From d588806998cb44289807258c774af7a8f25b984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 06/80] fix: continue tempered chains from the state swapped
 into them

---
 bilby/bilby_mcmc/chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bilby/bilby_mcmc/chain.py b/bilby/bilby_mcmc/chain.py
index 0c19134..4d29c29 100644
--- a/bilby/bilby_mcmc/chain.py
+++ b/bilby/bilby_mcmc/chain.py
@@ -128,6 +128,10 @@ class Chain(object):
 
         self._chain_array[index] = sample.list
 
+        # Replacing the last entry changes the state the chain continues from
+        if index == self.position:
+            self.current_sample = sample
+
     def key_to_idx(self, key):
         return self.keys.index(key)
 
-- 
2.43.0


From e5a14bc15adfe72c631b028263b40633638ee2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 07/80] fix: count whole days in bilby-mcmc run statistics
 sampling time

---
 bilby/bilby_mcmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index c8ccf25..8a7d2dd 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -289,7 +289,7 @@ class Bilby_MCMC(MCMCSampler):
         result.meta_data["run_statistics"] = dict(
             nlikelihood=ptsampler.position * ptsampler.L1steps * ptsampler._nsamplers,
             neffsamples=ptsampler.nsamples * ptsampler.convergence_inputs.thin_by_nact,
-            sampling_time_s=result.sampling_time.seconds,
+            sampling_time_s=result.sampling_time.total_seconds(),
             ncores=npool,
         )
 
-- 
2.43.0


From 84edb54b203bb625c76bf05fe28aec6934a4255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 08/80] fix: ignore unreadable or unwanted bilby-mcmc resume
 files

---
 bilby/bilby_mcmc/sampler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 8a7d2dd..e7efd61 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -296,7 +296,7 @@ class Bilby_MCMC(MCMCSampler):
         return result
 
     def setup_chain_set(self):
-        if self.read_current_state() and self.resume is True:
+        if self.resume is True and self.read_current_state():
             self.ptsampler.pool = self.pool
         else:
             self.init_ptsampler()
@@ -395,7 +395,11 @@ class Bilby_MCMC(MCMCSampler):
         import dill
 
         with open(self.resume_file, "rb") as file:
-            ptsampler = dill.load(file)
+            try:
+                ptsampler = dill.load(file)
+            except Exception as e:
+                logger.warning(f"Unable to read resume file, ignoring: {e}")
+                return False
             if not isinstance(ptsampler, BilbyPTMCMCSampler):
                 logger.debug("Malformed resume file, ignoring")
                 return False
-- 
2.43.0


From 7a265ada802ce0b258f47467540427f7b8faf3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 09/80] fix: give parallel bilby-mcmc chains independent random
 streams

---
 bilby/bilby_mcmc/sampler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index e7efd61..680769e 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -807,7 +807,10 @@ class BilbyPTMCMCSampler(object):
 
     def step_all_chains(self):
         if self.pool:
-            self.sampler_list = self.pool.map(call_step, self.sampler_list)
+            # Processes in the pool share their random state: give each step its own
+            sampler_list = self.sampler_list
+            seeds = random.generate_seeds(len(sampler_list))
+            self.sampler_list = self.pool.map(call_step, zip(sampler_list, seeds))
         else:
             for ii, sampler in enumerate(self.sampler_list):
                 self.sampler_list[ii] = sampler.step()
@@ -1417,6 +1420,8 @@ def get_initial_maximimum_posterior_sample(beta):
 # Methods used to aid parallelisation:
 
 
-def call_step(sampler):
+def call_step(args):
+    sampler, seed = args
+    random.seed(seed)
     sampler = sampler.step()
     return sampler
-- 
2.43.0


From 16d6799ea3dd63b207ba5c9de4fdd91f0b107c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 10/80] fix: apply the burn-in of bilby-mcmc chains with the
 current autocorrelation time

---
 bilby/bilby_mcmc/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/bilby_mcmc/chain.py b/bilby/bilby_mcmc/chain.py
index 4d29c29..de053e0 100644
--- a/bilby/bilby_mcmc/chain.py
+++ b/bilby/bilby_mcmc/chain.py
@@ -281,6 +281,8 @@ class Chain(object):
         tau = max(self.tau_dict.values())
         self.max_tau_dict[self.position] = tau
         self.cached_tau_count = 0
+        # The burn-in depends on tau: do not reuse one found with an older estimate
+        self._last_minimum_index = (-1, *self._last_minimum_index[1:])
         return tau
 
     @property
-- 
2.43.0


From 740963e762770f73066e61500e2286414ed3f2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 11/80] fix: do not change the chain when rejection sampling
 tempered bilby-mcmc chains

---
 bilby/bilby_mcmc/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 680769e..a253c86 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -1357,8 +1357,9 @@ class BilbyMCMCSampler(object):
 
         # Revert to true likelihood if needed
         if _sampling_convenience_dump.use_ratio:
-            zerotemp_logl += (
-                _sampling_convenience_dump.likelihood.noise_log_likelihood()
+            zerotemp_logl = (
+                zerotemp_logl
+                + _sampling_convenience_dump.likelihood.noise_log_likelihood()
             )
 
         # Calculate normalised weights
-- 
2.43.0


From 7323801cf34e3879d7e2e4982f91a52e1f0c7e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 12/80] fix: report bilby-mcmc progress before the first sample
 with pt_rejection_sample

---
 bilby/bilby_mcmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index a253c86..a829879 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -512,7 +512,7 @@ class Bilby_MCMC(MCMCSampler):
 
         if self.pt_rejection_sample:
             count = self.ptsampler.rejection_sampling_count
-            rse = 100 * count / nsamples
+            rse = 100 * count / nsamples if nsamples > 0 else 0
             msg += f"|rse={rse:0.2f}%"
 
         if self.verbose:
-- 
2.43.0


From 2a2ee1e3bb51d722f21f5faf6285ffb07fb9aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:55 +0000
Subject: [PATCH 13/80] fix: leave chains without an autocorrelation time out
 of bilby-mcmc samples

---
 bilby/bilby_mcmc/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index a829879..f2ea0a6 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -784,8 +784,12 @@ class BilbyPTMCMCSampler(object):
         if cached_samples[0] == self.position:
             return cached_samples[1]
 
+        # Chains without an ACT estimate have no burn-in and no independent samples
+        zerotemp_sampler_list = [
+            s for s in self.zerotemp_sampler_list if np.isfinite(s.chain.tau)
+        ]
         sample_list = []
-        for sampler in self.zerotemp_sampler_list:
+        for sampler in zerotemp_sampler_list or self.zerotemp_sampler_list:
             sample_list.append(sampler.samples)
         if self.pt_rejection_sample:
             for sampler in self.tempered_sampler_list:
-- 
2.43.0


From bd07142ba1a2735c7d1d479d15404ec5789fda4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:22 +0000
Subject: [PATCH 14/80] fix: do not leave bilby-mcmc chains frozen that are
 short of samples

---
 bilby/bilby_mcmc/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index f2ea0a6..c56ebd8 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -1330,6 +1330,9 @@ class BilbyMCMCSampler(object):
         if nsamples > self.target_nsamples and self.chain.converged is False:
             logger.debug(f"Temperature {self.Tindex} chain reached convergence")
             self.chain.converged = True
+        elif nsamples < self.target_nsamples:
+            # A better estimate of the ACT may leave the chain short of samples
+            self.chain.converged = False
         return nsamples
 
     @property
-- 
2.43.0


From da0dc0cac1d8fc09a1fd381d8e73e4f590366a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:31 +0000
Subject: [PATCH 15/80] fix: restore signal handlers when sampling fails or is
 interrupted

---
 bilby/core/sampler/base_sampler.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 17a7b11..9d59205 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -94,11 +94,13 @@ def signal_wrapper(method):
                 "This is likely the case if you are running on a Windows machine "
                 "and can be safely ignored."
             )
-        output = method(self, *args, **kwargs)
-        if _set:
-            signal.signal(signal.SIGTERM, old_term)
-            signal.signal(signal.SIGINT, old_int)
-            signal.signal(signal.SIGALRM, old_alarm)
+        try:
+            output = method(self, *args, **kwargs)
+        finally:
+            if _set:
+                signal.signal(signal.SIGTERM, old_term)
+                signal.signal(signal.SIGINT, old_int)
+                signal.signal(signal.SIGALRM, old_alarm)
         return output
 
     return wrapped
-- 
2.43.0


From f42e27552975af7430b54eb0d3e94d15dcb5d1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:31 +0000
Subject: [PATCH 16/80] fix: handle signals outside the lifetime of the worker
 pool

---
 bilby/core/sampler/base_sampler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 9d59205..a804504 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -82,6 +82,7 @@ def signal_wrapper(method):
     """
 
     def wrapped(self, *args, **kwargs):
+        self._sampling_process_id = os.getpid()
         try:
             old_term = signal.signal(signal.SIGTERM, self.write_current_state_and_exit)
             old_int = signal.signal(signal.SIGINT, self.write_current_state_and_exit)
@@ -735,13 +736,15 @@ class Sampler(object):
     def write_current_state_and_exit(self, signum=None, frame=None):
         """
         Make sure that if a pool of jobs is running only the parent tries to
-        checkpoint and exit. Only the parent has a 'pool' attribute.
+        checkpoint and exit. Only the parent is the process that started
+        sampling, the pool may not exist yet or be closed already.
 
         For samplers that must hard exit (typically due to non-Python process)
         use :code:`os._exit` that cannot be excepted. Other samplers exiting
         can be caught as a :code:`SystemExit`.
         """
-        if self.npool in (1, None) or getattr(self, "pool", None) is not None:
+        main_process_id = getattr(self, "_sampling_process_id", os.getpid())
+        if main_process_id == os.getpid():
             self._log_interruption(signum=signum)
             self.write_current_state()
             self._close_pool()
-- 
2.43.0


From 15965ef8c49d229b50ae83b553ad96eabd3f0200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:09 +0000
Subject: [PATCH 17/80] fix: do not checkpoint ensemble samplers before their
 first step

---
 bilby/core/sampler/emcee.py   |  3 +++
 bilby/core/sampler/ptemcee.py |  8 ++++++--
 bilby/core/sampler/zeus.py    | 10 ++++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/bilby/core/sampler/emcee.py b/bilby/core/sampler/emcee.py
index 2c12ee3..51b489e 100644
--- a/bilby/core/sampler/emcee.py
+++ b/bilby/core/sampler/emcee.py
@@ -284,6 +284,9 @@ class Emcee(MCMCSampler):
         Overwrites the stored sampler chain with one that is truncated
         to only the completed steps
         """
+        if not hasattr(self, "_sampler") or self._previous_iterations == 0:
+            logger.debug("No completed steps to checkpoint")
+            return
         logger.info(
             f"Checkpointing sampler to file {self.checkpoint_info.sampler_file}"
         )
diff --git a/bilby/core/sampler/ptemcee.py b/bilby/core/sampler/ptemcee.py
index 1d74a6f..e0a341d 100644
--- a/bilby/core/sampler/ptemcee.py
+++ b/bilby/core/sampler/ptemcee.py
@@ -502,8 +502,9 @@ class Ptemcee(MCMCSampler):
             raise SamplerError(f"pos0={self.pos0} not implemented")
 
     def _close_pool(self):
-        if getattr(self.sampler, "pool", None) is not None:
-            self.sampler.pool = None
+        sampler = getattr(self, "sampler", None)
+        if getattr(sampler, "pool", None) is not None:
+            sampler.pool = None
         if "pool" in self.result.sampler_kwargs:
             del self.result.sampler_kwargs["pool"]
         super(Ptemcee, self)._close_pool()
@@ -653,6 +654,9 @@ class Ptemcee(MCMCSampler):
         return self.result
 
     def write_current_state(self, plot=True):
+        if getattr(self, "sampler", None) is None or len(self.beta_list) == 0:
+            logger.debug("Attempted checkpoint before the first iteration")
+            return
         check_directory_exists_and_if_not_mkdir(self.outdir)
         checkpoint(
             self.iteration,
diff --git a/bilby/core/sampler/zeus.py b/bilby/core/sampler/zeus.py
index ad6e7ed..f635425 100644
--- a/bilby/core/sampler/zeus.py
+++ b/bilby/core/sampler/zeus.py
@@ -116,10 +116,20 @@ class Zeus(Emcee):
         return init_kwargs
 
     def write_current_state(self):
+        if not hasattr(self, "_sampler"):
+            return
         self._sampler.distribute = map
         super(Zeus, self).write_current_state()
         self._sampler.distribute = getattr(self._sampler.pool, "map", map)
 
+    @property
+    def _previous_iterations(self):
+        """Returns the number of iterations that the sampler has saved"""
+        try:
+            return len(self.sampler.get_chain())
+        except AttributeError:
+            return 0
+
     def _initialise_sampler(self):
         from zeus import EnsembleSampler
 
-- 
2.43.0


From a2ac0de5471c2b6e48f88b9bc88920797edf5a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 18/80] fix: let kombine be interrupted before its pool is set
 up

---
 bilby/core/sampler/kombine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/kombine.py b/bilby/core/sampler/kombine.py
index 4677519..d80bde5 100644
--- a/bilby/core/sampler/kombine.py
+++ b/bilby/core/sampler/kombine.py
@@ -227,6 +227,6 @@ class Kombine(Emcee):
     def _close_pool(self):
         from kombine import SerialPool
 
-        if isinstance(self.pool, SerialPool):
+        if isinstance(getattr(self, "pool", None), SerialPool):
             self.pool = None
         super(Kombine, self)._close_pool()
-- 
2.43.0


From 720bfb8a06606b151c4fd4baecf6d75b2d0a0181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:24 +0000
Subject: [PATCH 19/80] fix: ignore any unreadable dynesty resume file

---
 bilby/core/sampler/dynesty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index 86898dc..4279a64 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -748,7 +748,8 @@ class Dynesty(NestedSampler):
             with open(self.resume_file, "rb") as file:
                 try:
                     sampler = dill.load(file)
-                except EOFError:
+                except Exception as e:
+                    logger.debug(f"Reading the resume file failed: {e}")
                     sampler = None
 
                 if not hasattr(sampler, "versions"):
-- 
2.43.0


From d2bd86a42eee48e693d21c426cef198c72f2b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:24 +0000
Subject: [PATCH 20/80] fix: ignore unreadable or foreign ptemcee resume files

---
 bilby/core/sampler/ptemcee.py | 53 +++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/bilby/core/sampler/ptemcee.py b/bilby/core/sampler/ptemcee.py
index e0a341d..e581ca1 100644
--- a/bilby/core/sampler/ptemcee.py
+++ b/bilby/core/sampler/ptemcee.py
@@ -407,6 +407,46 @@ class Ptemcee(MCMCSampler):
         self.pos0 = np.moveaxis(pos0, 0, -1)
         return self.get_pos0_from_array()
 
+    def _read_resume_data(self):
+        """Read the resume file
+
+        Returns
+        -------
+        data: dict, None
+            The check-point data, None if there is no usable resume file
+
+        """
+        if not os.path.isfile(self.resume_file) or not os.path.getsize(
+            self.resume_file
+        ):
+            return None
+        import dill
+
+        logger.info(f"Resume data {self.resume_file} found")
+        try:
+            with open(self.resume_file, "rb") as file:
+                data = dill.load(file)
+        except Exception as e:
+            logger.warning(f"Unable to read resume file, ignoring: {e}")
+            return None
+        keys = [
+            "sampler",
+            "iteration",
+            "chain_array",
+            "log_likelihood_array",
+            "log_posterior_array",
+            "pos0",
+            "beta_list",
+            "tau_list",
+            "tau_list_n",
+            "Q_list",
+            "time_per_check",
+        ]
+        if not isinstance(data, dict) or any(key not in data for key in keys):
+            logger.warning(f"Ignoring malformed resume file {self.resume_file}")
+            return None
+        return data
+
     def setup_sampler(self):
         """Either initialize the sampler or read in the resume file"""
         import ptemcee
@@ -415,17 +455,8 @@ class Ptemcee(MCMCSampler):
             # This is a very ugly hack to support numpy>=1.24
             ptemcee.sampler.np.float = float
 
-        if (
-            os.path.isfile(self.resume_file)
-            and os.path.getsize(self.resume_file)
-            and self.resume is True
-        ):
-            import dill
-
-            logger.info(f"Resume data {self.resume_file} found")
-            with open(self.resume_file, "rb") as file:
-                data = dill.load(file)
-
+        data = self._read_resume_data() if self.resume is True else None
+        if data is not None:
             # Extract the check-point data
             self.sampler = data["sampler"]
             self.iteration = data["iteration"]
-- 
2.43.0


From 3b652635514d141af10af523dc5d2b89c288a990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:24 +0000
Subject: [PATCH 21/80] fix: ignore unreadable or foreign resume files of
 ensemble samplers

---
 bilby/core/sampler/emcee.py   | 51 ++++++++++++++++++++++++-----------
 bilby/core/sampler/kombine.py | 17 ++++++------
 bilby/core/sampler/zeus.py    |  8 ++++--
 3 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/bilby/core/sampler/emcee.py b/bilby/core/sampler/emcee.py
index 51b489e..c2c5125 100644
--- a/bilby/core/sampler/emcee.py
+++ b/bilby/core/sampler/emcee.py
@@ -296,10 +296,43 @@ class Emcee(MCMCSampler):
         safe_file_dump(self._sampler, self.checkpoint_info.sampler_file, "dill")
         self.sampler.pool = _pool
 
-    def _initialise_sampler(self):
+    @property
+    def _sampler_class(self):
         from emcee import EnsembleSampler
 
-        self._sampler = EnsembleSampler(**self.sampler_init_kwargs)
+        return EnsembleSampler
+
+    def _load_saved_sampler(self):
+        """Load the sampler from the checkpoint file, if there is a usable one
+
+        Returns
+        =======
+        bool: whether the sampler has been loaded
+
+        """
+        sampler_file = self.checkpoint_info.sampler_file
+        if not os.path.isfile(sampler_file) or not os.path.getsize(sampler_file):
+            return False
+
+        import dill
+
+        try:
+            with open(sampler_file, "rb") as f:
+                sampler = dill.load(f)
+        except Exception as e:
+            logger.warning(f"Unable to read resume file, ignoring: {e}")
+            return False
+        if not isinstance(sampler, self._sampler_class):
+            logger.warning(f"Ignoring malformed resume file {sampler_file}")
+            return False
+
+        logger.info(f"Resuming run from checkpoint file {sampler_file}")
+        self._sampler = sampler
+        self._sampler.pool = self.pool
+        return True
+
+    def _initialise_sampler(self):
+        self._sampler = self._sampler_class(**self.sampler_init_kwargs)
         self._init_chain_file()
 
     @property
@@ -313,19 +346,7 @@ class Emcee(MCMCSampler):
         """
         if hasattr(self, "_sampler"):
             pass
-        elif (
-            self.resume
-            and os.path.isfile(self.checkpoint_info.sampler_file)
-            and os.path.getsize(self.checkpoint_info.sampler_file)
-        ):
-            import dill
-
-            logger.info(
-                f"Resuming run from checkpoint file {self.checkpoint_info.sampler_file}"
-            )
-            with open(self.checkpoint_info.sampler_file, "rb") as f:
-                self._sampler = dill.load(f)
-                self._sampler.pool = self.pool
+        elif self.resume and self._load_saved_sampler():
             self._set_pos0_for_resume()
         else:
             self._initialise_sampler()
diff --git a/bilby/core/sampler/kombine.py b/bilby/core/sampler/kombine.py
index d80bde5..8af1de2 100644
--- a/bilby/core/sampler/kombine.py
+++ b/bilby/core/sampler/kombine.py
@@ -1,4 +1,3 @@
-import os
 
 import numpy as np
 
@@ -149,10 +148,14 @@ class Kombine(Emcee):
 
         return init_kwargs
 
-    def _initialise_sampler(self):
-        import kombine
+    @property
+    def _sampler_class(self):
+        from kombine import Sampler
+
+        return Sampler
 
-        self._sampler = kombine.Sampler(**self.sampler_init_kwargs)
+    def _initialise_sampler(self):
+        self._sampler = self._sampler_class(**self.sampler_init_kwargs)
         self._init_chain_file()
 
     def _set_pos0_for_resume(self):
@@ -166,11 +169,7 @@ class Kombine(Emcee):
         return self.sampler.chain[:nsteps, :, :]
 
     def check_resume(self):
-        return (
-            self.resume
-            and os.path.isfile(self.checkpoint_info.sampler_file)
-            and os.path.getsize(self.checkpoint_info.sampler_file) > 0
-        )
+        return self.resume and self._previous_iterations > 0
 
     @signal_wrapper
     def run_sampler(self):
diff --git a/bilby/core/sampler/zeus.py b/bilby/core/sampler/zeus.py
index f635425..5004327 100644
--- a/bilby/core/sampler/zeus.py
+++ b/bilby/core/sampler/zeus.py
@@ -130,10 +130,14 @@ class Zeus(Emcee):
         except AttributeError:
             return 0
 
-    def _initialise_sampler(self):
+    @property
+    def _sampler_class(self):
         from zeus import EnsembleSampler
 
-        self._sampler = EnsembleSampler(**self.sampler_init_kwargs)
+        return EnsembleSampler
+
+    def _initialise_sampler(self):
+        self._sampler = self._sampler_class(**self.sampler_init_kwargs)
         self._init_chain_file()
 
     def write_chains_to_file(self, sample):
-- 
2.43.0


From f66b012f0ddac9d5b6e7f97850bb49e353a175ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 22/80] fix: do not lose or inflate dynesty's sampling time
 when interrupted while resuming

---
 bilby/core/sampler/dynesty.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index 4279a64..b1f66b7 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -774,12 +774,16 @@ class Dynesty(NestedSampler):
                             )
                         )
                 del sampler.versions
+                if getattr(sampler, "added_live", False) and continuing:
+                    sampler._remove_live_points()
+                sampler.nqueue = -1
+                sampler.kwargs.pop("start_time", None)
+                self.sampling_time = sampler.kwargs.pop(
+                    "sampling_time", self.sampling_time
+                )
+                # the time since the state was written is not sampling time
+                self.start_time = datetime.datetime.now()
                 self.sampler = sampler
-                if getattr(self.sampler, "added_live", False) and continuing:
-                    self.sampler._remove_live_points()
-                self.sampler.nqueue = -1
-                self.start_time = self.sampler.kwargs.pop("start_time")
-                self.sampling_time = self.sampler.kwargs.pop("sampling_time")
                 self.sampler.queue_size = self.kwargs["queue_size"]
                 self.sampler.pool = self.pool
                 if self.pool is not None:
-- 
2.43.0


From 8001f4c4b532bb1f58da55868598fc916a375a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:30 +0000
Subject: [PATCH 23/80] fix: checkpoint ptemcee from its last complete
 iteration

---
 bilby/core/sampler/ptemcee.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/bilby/core/sampler/ptemcee.py b/bilby/core/sampler/ptemcee.py
index e581ca1..58b6638 100644
--- a/bilby/core/sampler/ptemcee.py
+++ b/bilby/core/sampler/ptemcee.py
@@ -270,6 +270,9 @@ class Ptemcee(MCMCSampler):
         self.nsamples_effective = 0
         self.discard = 0
 
+        # The last iteration, and its walkers, for which everything is recorded
+        self._recorded = None
+
     @property
     def sampler_function_kwargs(self):
         """Kwargs passed to samper.sampler()"""
@@ -470,6 +473,7 @@ class Ptemcee(MCMCSampler):
             self.tau_list_n = data["tau_list_n"]
             self.Q_list = data["Q_list"]
             self.time_per_check = data["time_per_check"]
+            self._recorded = (self.iteration, self.pos0)
 
             # Initialize the pool
             self.sampler.pool = self.pool
@@ -567,9 +571,11 @@ class Ptemcee(MCMCSampler):
                 self.chain_array = np.concatenate(
                     (self.chain_array, self.get_zero_chain_array()), axis=1
                 )
+            if self.iteration == self.log_likelihood_array.shape[2]:
                 self.log_likelihood_array = np.concatenate(
                     (self.log_likelihood_array, self.get_zero_array()), axis=2
                 )
+            if self.iteration == self.log_posterior_array.shape[2]:
                 self.log_posterior_array = np.concatenate(
                     (self.log_posterior_array, self.get_zero_array()), axis=2
                 )
@@ -632,6 +638,7 @@ class Ptemcee(MCMCSampler):
                 self.mean_log_posterior,
                 verbose=self.verbose,
             )
+            self._recorded = (self.iteration, self.pos0)
 
             if stop:
                 logger.info("Finished sampling")
@@ -685,12 +692,14 @@ class Ptemcee(MCMCSampler):
         return self.result
 
     def write_current_state(self, plot=True):
-        if getattr(self, "sampler", None) is None or len(self.beta_list) == 0:
+        if getattr(self, "sampler", None) is None or self._recorded is None:
             logger.debug("Attempted checkpoint before the first iteration")
             return
+        # The current iteration may be only partly recorded if we are interrupted
+        iteration, pos0 = self._recorded
         check_directory_exists_and_if_not_mkdir(self.outdir)
         checkpoint(
-            self.iteration,
+            iteration,
             self.outdir,
             self.label,
             self.nsamples_effective,
@@ -703,12 +712,12 @@ class Ptemcee(MCMCSampler):
             self.log_likelihood_array,
             self.log_posterior_array,
             self.chain_array,
-            self.pos0,
-            self.beta_list,
-            self.tau_list,
-            self.tau_list_n,
-            self.Q_list,
-            self.time_per_check,
+            pos0,
+            self.beta_list[:iteration],
+            self.tau_list[:iteration],
+            self.tau_list_n[:iteration],
+            self.Q_list[:iteration],
+            self.time_per_check[:iteration],
         )
 
         if plot:
-- 
2.43.0


From b2a0c927b64aee91af847aa0ed99701f69e89ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:23 +0000
Subject: [PATCH 24/80] fix: report emcee and zeus likelihoods in the order of
 the samples

---
 bilby/core/sampler/emcee.py | 7 +++++--
 bilby/core/sampler/zeus.py  | 8 ++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/bilby/core/sampler/emcee.py b/bilby/core/sampler/emcee.py
index c2c5125..53c1d8e 100644
--- a/bilby/core/sampler/emcee.py
+++ b/bilby/core/sampler/emcee.py
@@ -442,8 +442,11 @@ class Emcee(MCMCSampler):
 
         self._generate_result()
 
-        self.result.samples = self.sampler.chain[:, self.nburn :, :].reshape(
-            (-1, self.ndim)
+        # The blobs are ordered by step and then by walker
+        self.result.samples = (
+            self.sampler.chain[:, self.nburn :, :]
+            .swapaxes(0, 1)
+            .reshape((-1, self.ndim))
         )
         self.result.walkers = self.sampler.chain
         return self.result
diff --git a/bilby/core/sampler/zeus.py b/bilby/core/sampler/zeus.py
index 5004327..2e32ae8 100644
--- a/bilby/core/sampler/zeus.py
+++ b/bilby/core/sampler/zeus.py
@@ -192,10 +192,10 @@ class Zeus(Emcee):
                 f"`nburn < nsteps` ({self.result.nburn} < {self.nsteps})."
                 " Try increasing the number of steps."
             )
-        blobs = np.array(self.sampler.get_blobs(flat=True, discard=self.nburn)).reshape(
-            (-1, 2)
-        )
-        log_likelihoods, log_priors = blobs.T
+        # The flattened samples are ordered by walker and then by step
+        nsteps = len(self.sampler.get_chain(discard=self.nburn))
+        blobs = np.array(self.sampler.get_blobs(discard=self.nburn))[:nsteps]
+        log_likelihoods, log_priors = blobs.swapaxes(0, 1).reshape((-1, 2)).T
         self.result.log_likelihood_evaluations = log_likelihoods
         self.result.log_prior_evaluations = log_priors
         self.result.log_evidence = np.nan
-- 
2.43.0


From 0dcf9614138ebd2eaf850d46537ffa81438ae759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:38 +0000
Subject: [PATCH 25/80] fix: keep the chain file of ensemble samplers in step
 with resumed runs

---
 bilby/core/sampler/emcee.py   | 29 +++++++++++++++++++++++++++--
 bilby/core/sampler/kombine.py |  6 ++++++
 bilby/core/sampler/zeus.py    |  6 ++++++
 3 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/bilby/core/sampler/emcee.py b/bilby/core/sampler/emcee.py
index 53c1d8e..b7c6214 100644
--- a/bilby/core/sampler/emcee.py
+++ b/bilby/core/sampler/emcee.py
@@ -231,10 +231,14 @@ class Emcee(MCMCSampler):
         """Returns the log-prior stored on disk"""
         return self.stored_chain["log_p"]
 
+    @property
+    def _chain_file_header(self):
+        search_keys_str = "\t".join(self.search_parameter_keys)
+        return f"walker\t{search_keys_str}\tlog_l\tlog_p\n"
+
     def _init_chain_file(self):
         with open(self.checkpoint_info.chain_file, "w+") as ff:
-            search_keys_str = "\t".join(self.search_parameter_keys)
-            ff.write(f"walker\t{search_keys_str}\tlog_l\tlog_p\n")
+            ff.write(self._chain_file_header)
 
     @property
     def checkpoint_info(self):
@@ -348,6 +352,7 @@ class Emcee(MCMCSampler):
             pass
         elif self.resume and self._load_saved_sampler():
             self._set_pos0_for_resume()
+            self._rewrite_chain_file()
         else:
             self._initialise_sampler()
             self._set_pos0()
@@ -370,6 +375,26 @@ class Emcee(MCMCSampler):
             shutil.copyfileobj(ftemp, fchain)
         os.remove(temp_chain_file)
 
+    @property
+    def _stored_steps(self):
+        """Points, log-likelihoods and log-priors of all walkers in all steps"""
+        chain = self.sampler.chain.swapaxes(0, 1)[: self._previous_iterations]
+        return np.concatenate([chain, np.array(self.sampler.blobs)], axis=2)
+
+    def _rewrite_chain_file(self):
+        """Make the chain file list exactly the steps stored in the sampler
+
+        The steps after the last checkpoint are repeated when resuming, and the
+        last step may not be completely written if we were interrupted.
+        """
+        temp_chain_file = self.checkpoint_info.chain_file + ".temp"
+        with open(temp_chain_file, "w") as ff:
+            ff.write(self._chain_file_header)
+            for points in self._stored_steps:
+                for ii, point in enumerate(points):
+                    ff.write(self.checkpoint_info.chain_template.format(ii, *point))
+        shutil.move(temp_chain_file, self.checkpoint_info.chain_file)
+
     @property
     def _previous_iterations(self):
         """Returns the number of iterations that the sampler has saved
diff --git a/bilby/core/sampler/kombine.py b/bilby/core/sampler/kombine.py
index 8af1de2..20b500e 100644
--- a/bilby/core/sampler/kombine.py
+++ b/bilby/core/sampler/kombine.py
@@ -162,6 +162,12 @@ class Kombine(Emcee):
         # take last iteration
         self.pos0 = self.sampler.chain[-1, :, :]
 
+    @property
+    def _stored_steps(self):
+        return np.concatenate(
+            [self.sampler_chain, np.array(self.sampler.blobs)], axis=2
+        )
+
     @property
     def sampler_chain(self):
         # remove last iterations when resuming
diff --git a/bilby/core/sampler/zeus.py b/bilby/core/sampler/zeus.py
index 2e32ae8..8b55875 100644
--- a/bilby/core/sampler/zeus.py
+++ b/bilby/core/sampler/zeus.py
@@ -130,6 +130,12 @@ class Zeus(Emcee):
         except AttributeError:
             return 0
 
+    @property
+    def _stored_steps(self):
+        chain = self.sampler.get_chain()
+        blobs = np.array(self.sampler.get_blobs())[: len(chain)]
+        return np.concatenate([chain, blobs], axis=2)
+
     @property
     def _sampler_class(self):
         from zeus import EnsembleSampler
-- 
2.43.0


From efb611f60d34bb55aeb2a1ccab79c610ad787c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:38 +0000
Subject: [PATCH 26/80] fix: report kombine walkers without mixing them

---
 bilby/core/sampler/kombine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bilby/core/sampler/kombine.py b/bilby/core/sampler/kombine.py
index 20b500e..00e4e07 100644
--- a/bilby/core/sampler/kombine.py
+++ b/bilby/core/sampler/kombine.py
@@ -217,9 +217,7 @@ class Kombine(Emcee):
 
         tmp_chain = self.sampler.chain[self.nburn :, :, :].copy()
         self.result.samples = tmp_chain.reshape((-1, self.ndim))
-        self.result.walkers = self.sampler.chain.reshape(
-            (self.nwalkers, self.nsteps, self.ndim)
-        )
+        self.result.walkers = self.sampler.chain.swapaxes(0, 1)
         return self.result
 
     def _setup_pool(self):
-- 
2.43.0


From a3405db3dfefe60d015ff4c3219fb019ec61d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:38 +0000
Subject: [PATCH 27/80] fix: do not overwrite the last step when resuming
 kombine

---
 bilby/core/sampler/kombine.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bilby/core/sampler/kombine.py b/bilby/core/sampler/kombine.py
index 00e4e07..927394b 100644
--- a/bilby/core/sampler/kombine.py
+++ b/bilby/core/sampler/kombine.py
@@ -158,6 +158,15 @@ class Kombine(Emcee):
         self._sampler = self._sampler_class(**self.sampler_init_kwargs)
         self._init_chain_file()
 
+    def _load_saved_sampler(self):
+        if not super()._load_saved_sampler():
+            return False
+        # The counters may lack the last stored step if we were interrupted
+        nsteps = len(self._sampler.blobs)
+        self._sampler.rollback(nsteps)
+        self._sampler.iterations = self._sampler.stored_iterations = nsteps
+        return True
+
     def _set_pos0_for_resume(self):
         # take last iteration
         self.pos0 = self.sampler.chain[-1, :, :]
-- 
2.43.0


From 23e5fee875847b28c6cf59113f6bcfafb212eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 28/80] fix: complete the automatic burn-in of resumed kombine
 runs

---
 bilby/core/sampler/kombine.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/bilby/core/sampler/kombine.py b/bilby/core/sampler/kombine.py
index 927394b..a13f174 100644
--- a/bilby/core/sampler/kombine.py
+++ b/bilby/core/sampler/kombine.py
@@ -190,17 +190,23 @@ class Kombine(Emcee):
     def run_sampler(self):
         self._setup_pool()
         if self.autoburnin:
-            if self.check_resume():
+            if hasattr(self.sampler, "bilby_nburn"):
                 logger.info("Resuming with autoburnin=True skips burnin process:")
             else:
-                logger.info("Running kombine sampler's automatic burnin process")
+                if self.check_resume():
+                    logger.info("Resuming kombine sampler's automatic burnin process")
+                else:
+                    logger.info("Running kombine sampler's automatic burnin process")
                 self.sampler.burnin(**self.sampler_burnin_kwargs)
-                self.kwargs["iterations"] += self._previous_iterations
-                self.nburn = self._previous_iterations
-                logger.info(
-                    f"Kombine auto-burnin complete. Removing {self.nburn} samples from chains"
-                )
+                # kept with the sampler in the checkpoint file
+                self.sampler.bilby_nburn = self._previous_iterations
                 self._set_pos0_for_resume()
+                self._rewrite_chain_file()
+            self.kwargs["iterations"] += self.sampler.bilby_nburn
+            self.nburn = self.sampler.bilby_nburn
+            logger.info(
+                f"Kombine auto-burnin complete. Removing {self.nburn} samples from chains"
+            )
 
         from tqdm.auto import tqdm
 
-- 
2.43.0


From 98dbf49ab96342913fdbcbd1a0f2c4179e748132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:58 +0000
Subject: [PATCH 29/80] fix: ignore any unreadable cached result

---
 bilby/core/sampler/base_sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index a804504..bddda2f 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -668,6 +668,9 @@ class Sampler(object):
             )
         except IOError:
             self.cached_result = None
+        except Exception as e:
+            logger.warning(f"Ignoring unreadable cached result, error: {e}")
+            self.cached_result = None
 
         if command_line_args.use_cached:
             logger.debug("Command line argument cached given, no cache check performed")
@@ -690,7 +693,7 @@ class Sampler(object):
                     self.meta_data["likelihood"],
                     self.cached_result.meta_data["likelihood"],
                 )
-            except AssertionError:
+            except (AssertionError, KeyError):
                 use_cache = False
             if use_cache is False:
                 self.cached_result = None
-- 
2.43.0


From b5abebb317345d4bad6048d51569e81d2e7255fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 30/80] fix: resume reweighting from the samples that are
 complete

---
 bilby/core/result.py | 126 +++++++++++++++++++++++++------------------
 1 file changed, 75 insertions(+), 51 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 0803ab1..008139e 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -188,75 +188,99 @@ def get_weights_for_reweighting(
 
     nposterior = len(result.posterior)
 
+    old_log_likelihood_array = np.zeros(nposterior)
+    old_log_prior_array = np.zeros(nposterior)
+    new_log_likelihood_array = np.zeros(nposterior)
+    new_log_prior_array = np.zeros(nposterior)
+    completed = np.zeros(nposterior)
+    arrays = [
+        old_log_likelihood_array, old_log_prior_array,
+        new_log_likelihood_array, new_log_prior_array, completed]
+
+    starting_index = 0
     if (resume_file is not None) and os.path.exists(resume_file):
-        old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array = \
-            np.genfromtxt(resume_file)
-
-        starting_index = np.argmin(np.abs(old_log_likelihood_array))
-        logger.info(f'Checkpoint resuming from {starting_index}.')
-
-    else:
-        old_log_likelihood_array = np.zeros(nposterior)
-        old_log_prior_array = np.zeros(nposterior)
-        new_log_likelihood_array = np.zeros(nposterior)
-        new_log_prior_array = np.zeros(nposterior)
-
-        starting_index = 0
+        try:
+            checkpoint = np.loadtxt(resume_file, ndmin=2)
+        except (OSError, ValueError) as e:
+            logger.warning(f'Ignoring unreadable resume file {resume_file}: {e}.')
+        else:
+            if checkpoint.shape == (len(arrays), nposterior):
+                for array, row in zip(arrays, checkpoint):
+                    array[:] = row
+                starting_index = int(np.sum(completed))
+                logger.info(f'Checkpoint resuming from {starting_index}.')
+            else:
+                logger.warning(f'Ignoring resume file {resume_file} of another reweighting.')
 
     dict_samples = [{key: sample[key] for key in result.posterior}
                     for _, sample in result.posterior.iterrows()]
-    n = len(dict_samples) - starting_index
 
     # Helper function to compute likelihoods in parallel
-    def eval_pool(this_logl):
+    def eval_pool(this_logl, samples):
+        n = len(samples)
         with multiprocessing.Pool(processes=npool) as pool:
             chunksize = max(100, n // (2 * npool))
             return list(tqdm(
                 pool.imap(partial(__eval_l, this_logl),
-                        dict_samples[starting_index:], chunksize=chunksize),
+                          samples, chunksize=chunksize),
                 desc='Computing likelihoods',
                 total=n)
             )
 
-    if old_likelihood is None:
-        old_log_likelihood_array[starting_index:] = \
-            result.posterior["log_likelihood"][starting_index:].to_numpy()
-    else:
-        old_log_likelihood_array[starting_index:] = eval_pool(old_likelihood)
+    # Without a resume file everything is evaluated in one go
+    step = nposterior if resume_file is None else max(1, n_checkpoint)
+    while starting_index < nposterior:
+        block = slice(starting_index, min(starting_index + step, nposterior))
+        samples = dict_samples[block]
 
-    if new_likelihood is None:
-        # Don't perform likelihood reweighting (i.e. likelihood isn't updated)
-        new_log_likelihood_array[starting_index:] = old_log_likelihood_array[starting_index:]
-    else:
-        new_log_likelihood_array[starting_index:] = eval_pool(new_likelihood)
-
-    # Compute priors
-    for ii, sample in enumerate(tqdm(dict_samples[starting_index:],
-                                     desc='Computing priors',
-                                     total=n),
-                                start=starting_index):
-        # prior calculation needs to not have prior or likelihood keys
-        ln_prior = sample.pop("log_prior", np.nan)
-        if "log_likelihood" in sample:
-            del sample["log_likelihood"]
-
-        if old_prior is not None:
-            old_log_prior_array[ii] = old_prior.ln_prob(sample)
+        if old_likelihood is None:
+            old_log_likelihood_array[block] = \
+                result.posterior["log_likelihood"].to_numpy()[block]
         else:
-            old_log_prior_array[ii] = ln_prior
+            old_log_likelihood_array[block] = eval_pool(old_likelihood, samples)
 
-        if new_prior is not None:
-            new_log_prior_array[ii] = new_prior.ln_prob(sample)
+        if new_likelihood is None:
+            # Don't perform likelihood reweighting (i.e. likelihood isn't updated)
+            new_log_likelihood_array[block] = old_log_likelihood_array[block]
         else:
-            # Don't perform prior reweighting (i.e. prior isn't updated)
-            new_log_prior_array[ii] = old_log_prior_array[ii]
-
-        if (ii % (n_checkpoint) == 0) and (resume_file is not None):
-            checkpointed_index = np.argmin(np.abs(old_log_likelihood_array))
-            logger.info(f'Checkpointing with {checkpointed_index} samples')
-            np.savetxt(
-                resume_file,
-                [old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array])
+            new_log_likelihood_array[block] = eval_pool(new_likelihood, samples)
+
+        # Compute priors
+        for ii, sample in enumerate(tqdm(samples,
+                                         desc='Computing priors',
+                                         total=len(samples)),
+                                    start=starting_index):
+            # prior calculation needs to not have prior or likelihood keys
+            ln_prior = sample.pop("log_prior", np.nan)
+            if "log_likelihood" in sample:
+                del sample["log_likelihood"]
+
+            if old_prior is not None:
+                old_log_prior_array[ii] = old_prior.ln_prob(sample)
+            else:
+                old_log_prior_array[ii] = ln_prior
+
+            if new_prior is not None:
+                new_log_prior_array[ii] = new_prior.ln_prob(sample)
+            else:
+                # Don't perform prior reweighting (i.e. prior isn't updated)
+                new_log_prior_array[ii] = old_log_prior_array[ii]
+
+        completed[block] = 1
+        starting_index = block.stop
+
+        if resume_file is not None:
+            logger.info(f'Checkpointing with {starting_index} samples')
+            temp_filename = f"{resume_file}.{uuid.uuid4().hex}.temp"
+            try:
+                with open(temp_filename, "w") as ff:
+                    np.savetxt(ff, arrays)
+                    ff.flush()
+                    os.fsync(ff.fileno())
+                os.replace(temp_filename, resume_file)
+            finally:
+                if os.path.exists(temp_filename):
+                    os.remove(temp_filename)
 
     ln_weights = (
         new_log_likelihood_array + new_log_prior_array - old_log_likelihood_array - old_log_prior_array)
-- 
2.43.0


From a342850f95125b084c10fd57f7910801b3104ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:53 +0000
Subject: [PATCH 31/80] fix: leave the original result unchanged when
 reweighting

---
 bilby/core/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 008139e..ac17017 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -4,7 +4,7 @@ import json
 import os
 import uuid
 from collections import namedtuple
-from copy import copy
+from copy import copy, deepcopy
 from importlib import import_module
 from itertools import product
 import multiprocessing
@@ -362,7 +362,7 @@ def reweight(result, label=None, new_likelihood=None, new_prior=None,
     """
     from scipy.special import logsumexp
 
-    result = copy(result)
+    result = deepcopy(result)
 
     if use_nested_samples:
         result.posterior = result.nested_samples
-- 
2.43.0


From 24b2acb43630211676a0f28bd6aa7991038f2ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:05 +0000
Subject: [PATCH 32/80] fix: reweight nested samples, which store no prior
 values

---
 bilby/core/result.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index ac17017..38d4381 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -252,8 +252,8 @@ def get_weights_for_reweighting(
                                     start=starting_index):
             # prior calculation needs to not have prior or likelihood keys
             ln_prior = sample.pop("log_prior", np.nan)
-            if "log_likelihood" in sample:
-                del sample["log_likelihood"]
+            for key in ["log_likelihood", "weights"]:
+                sample.pop(key, None)
 
             if old_prior is not None:
                 old_log_prior_array[ii] = old_prior.ln_prob(sample)
@@ -282,8 +282,9 @@ def get_weights_for_reweighting(
                 if os.path.exists(temp_filename):
                     os.remove(temp_filename)
 
-    ln_weights = (
-        new_log_likelihood_array + new_log_prior_array - old_log_likelihood_array - old_log_prior_array)
+    ln_weights = new_log_likelihood_array - old_log_likelihood_array
+    if new_prior is not None:
+        ln_weights += new_log_prior_array - old_log_prior_array
 
     return ln_weights, new_log_likelihood_array, new_log_prior_array, old_log_likelihood_array, old_log_prior_array
 
-- 
2.43.0


From 6c2e022e1824af1f2600d15b5964e76a53b9782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 33/80] fix: resume reconstructions with any block size and
 ignore unreadable caches

---
 bilby/gw/conversion.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index fe1688f..ca750e9 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -2449,9 +2449,12 @@ def generate_posterior_samples_from_marginalized_likelihood(
         except EOFError:
             logger.warning("Cache file is empty")
             cached_samples_dict = None
+        except Exception as e:
+            logger.warning(f"Cache file is unreadable: {e}")
+            cached_samples_dict = None
 
         # Check the samples are identical between the cache and current
-        if (cached_samples_dict is not None) and (cached_samples_dict["_samples"].equals(samples)):
+        if isinstance(cached_samples_dict, dict) and samples.equals(cached_samples_dict.get("_samples")):
             # Calculate reconstruction percentage and print a log message
             nsamples_converted = np.sum(
                 [len(val) for key, val in cached_samples_dict.items() if key != "_samples"]
@@ -2489,11 +2492,15 @@ def generate_posterior_samples_from_marginalized_likelihood(
     seeds = generate_seeds(len(samples))
     fill_args = [(ii, row, seed) for (ii, row), seed in zip(samples.iterrows(), seeds)]
     ii = 0
+    new_samples = list()
     pbar = tqdm(total=len(samples), file=sys.stdout)
     while ii < len(samples):
         if ii in cached_samples_dict:
-            ii += block
-            pbar.update(block)
+            # The size of cached blocks may differ from the current one
+            subset_samples = cached_samples_dict[ii]
+            new_samples.extend(subset_samples)
+            ii += len(subset_samples)
+            pbar.update(len(subset_samples))
             continue
 
         if pool is not None:
@@ -2506,7 +2513,8 @@ def generate_posterior_samples_from_marginalized_likelihood(
         if use_cache:
             safe_file_dump(cached_samples_dict, cache_filename, "pickle")
 
-        ii += block
+        new_samples.extend(subset_samples)
+        ii += len(subset_samples)
         pbar.update(len(subset_samples))
     pbar.close()
 
@@ -2514,9 +2522,7 @@ def generate_posterior_samples_from_marginalized_likelihood(
         pool.close()
         pool.join()
 
-    new_samples = np.concatenate(
-        [np.array(val) for key, val in cached_samples_dict.items() if key != "_samples"]
-    )
+    new_samples = np.array(new_samples)
 
     for ii, key in enumerate(marginalized_parameters):
         samples[key] = new_samples[:, ii]
-- 
2.43.0


From b126eaa18b94155054139a04b4787532c21c975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 34/80] fix: keep sky frame parameters with their samples

---
 bilby/gw/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index ca750e9..d8234c9 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -2545,7 +2545,7 @@ def generate_sky_frame_parameters(samples, likelihood):
         sample = dict(samples.iloc[ii]).copy()
         likelihood.parameters.update(sample)
         new_samples.append(likelihood.get_sky_frame_parameters())
-    new_samples = DataFrame(new_samples)
+    new_samples = DataFrame(new_samples, index=samples.index)
     for key in new_samples:
         samples[key] = new_samples[key]
 
-- 
2.43.0


From ed1651d949bd5ac93195a1c096a3cdad717959da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 35/80] fix: a new time or frequency array invalidates the
 other one

---
 bilby/core/series.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bilby/core/series.py b/bilby/core/series.py
index ba1d0ff..e9111c6 100644
--- a/bilby/core/series.py
+++ b/bilby/core/series.py
@@ -50,9 +50,12 @@ class CoupledTimeAndFrequencySeries(object):
 
     @frequency_array.setter
     def frequency_array(self, frequency_array):
-        self._frequency_array = frequency_array
-        self._sampling_frequency, self._duration = \
+        sampling_frequency, duration = \
             utils.get_sampling_frequency_and_duration_from_frequency_array(frequency_array)
+        if (sampling_frequency, duration) != (self._sampling_frequency, self._duration):
+            self._time_array_updated = False
+        self._sampling_frequency, self._duration = sampling_frequency, duration
+        self._frequency_array = frequency_array
         self._frequency_array_updated = True
 
     @property
@@ -80,10 +83,13 @@ class CoupledTimeAndFrequencySeries(object):
 
     @time_array.setter
     def time_array(self, time_array):
-        self._time_array = time_array
-        self._sampling_frequency, self._duration = \
+        sampling_frequency, duration = \
             utils.get_sampling_frequency_and_duration_from_time_array(time_array)
+        if (sampling_frequency, duration) != (self._sampling_frequency, self._duration):
+            self._frequency_array_updated = False
+        self._sampling_frequency, self._duration = sampling_frequency, duration
         self._start_time = time_array[0]
+        self._time_array = time_array
         self._time_array_updated = True
 
     @property
-- 
2.43.0


From 1331d66a52232bb9a7308b85d045cca63c1b1fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 36/80] fix: recompute a waveform when the time or frequency
 grid or the waveform arguments change

---
 bilby/gw/waveform_generator.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/bilby/gw/waveform_generator.py b/bilby/gw/waveform_generator.py
index f85e42a..7f6c20b 100644
--- a/bilby/gw/waveform_generator.py
+++ b/bilby/gw/waveform_generator.py
@@ -169,8 +169,12 @@ class WaveformGenerator(object):
                           transformed_model_data_points, parameters):
         if parameters is not None:
             self.parameters = parameters
+        else:
+            self.parameters.update(self.waveform_arguments)
         if self.parameters == self._cache['parameters'] and self._cache['model'] == model and \
-                self._cache['transformed_model'] == transformed_model:
+                self._cache['transformed_model'] == transformed_model and \
+                self._cache.get('model_data_points') is model_data_points and \
+                self._cache.get('transformed_model_data_points') is transformed_model_data_points:
             return self._cache['waveform']
         if model is not None:
             model_strain = self._strain_from_model(model_data_points, model)
@@ -179,10 +183,14 @@ class WaveformGenerator(object):
                                                                transformation_function)
         else:
             raise RuntimeError("No source model given")
-        self._cache['waveform'] = model_strain
-        self._cache['parameters'] = self.parameters.copy()
-        self._cache['model'] = model
-        self._cache['transformed_model'] = transformed_model
+        self._cache = dict(
+            waveform=model_strain,
+            parameters=self.parameters.copy(),
+            model=model,
+            transformed_model=transformed_model,
+            model_data_points=model_data_points,
+            transformed_model_data_points=transformed_model_data_points,
+        )
         return model_strain
 
     def _strain_from_model(self, model_data_points, model):
-- 
2.43.0


From c86fc2b256b8d401771019e68171818a2895f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 37/80] fix: do not share the cached noise curve with the
 caller

---
 bilby/gw/detector/psd.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bilby/gw/detector/psd.py b/bilby/gw/detector/psd.py
index a3948f9..1f97e7e 100644
--- a/bilby/gw/detector/psd.py
+++ b/bilby/gw/detector/psd.py
@@ -58,9 +58,8 @@ class PowerSpectralDensity(object):
 
     def _update_cache(self, frequency_array):
         psd_array = self.power_spectral_density_interpolated(frequency_array)
-        self._cache['psd_array'] = psd_array
-        self._cache['asd_array'] = psd_array**0.5
-        self._cache['frequency_array'] = frequency_array
+        self._cache = dict(
+            frequency_array=np.array(frequency_array), psd_array=psd_array, asd_array=psd_array**0.5)
 
     def __eq__(self, other):
         if self.psd_file == other.psd_file \
@@ -244,12 +243,12 @@ class PowerSpectralDensity(object):
     def get_power_spectral_density_array(self, frequency_array):
         if not np.array_equal(frequency_array, self._cache['frequency_array']):
             self._update_cache(frequency_array=frequency_array)
-        return self._cache['psd_array']
+        return self._cache['psd_array'].copy()
 
     def get_amplitude_spectral_density_array(self, frequency_array):
         if not np.array_equal(frequency_array, self._cache['frequency_array']):
             self._update_cache(frequency_array=frequency_array)
-        return self._cache['asd_array']
+        return self._cache['asd_array'].copy()
 
     @property
     def power_spectral_density_interpolated(self):
-- 
2.43.0


From 7b8cb282fd9f39b96ab02165440c572f6202f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 38/80] fix: keep derived strain data, frequency mask and
 window factor up to date

---
 bilby/gw/detector/strain_data.py | 89 +++++++++++++++++++++++---------
 1 file changed, 66 insertions(+), 23 deletions(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 06e0c01..66075e6 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -40,12 +40,14 @@ class InterferometerStrainData(object):
         self.maximum_frequency = maximum_frequency
         self.notch_list = notch_list
         self.roll_off = roll_off
-        self.window_factor = 1
+        self._window_factor = 1
+        self._window_roll_off = None
 
         self._times_and_frequencies = CoupledTimeAndFrequencySeries()
 
         self._frequency_mask_updated = False
         self._frequency_mask = None
+        self._frequency_mask_frequencies = None
         self._frequency_domain_strain = None
         self._time_domain_strain = None
         self._channel = None
@@ -65,6 +67,13 @@ class InterferometerStrainData(object):
             return True
         return False
 
+    def __setstate__(self, state):
+        self._window_roll_off = None
+        self._frequency_mask_frequencies = None
+        self.__dict__.update(state)
+        if 'window_factor' in state:  # saved by an earlier version
+            self._window_factor = self.__dict__.pop('window_factor')
+
     def time_within_data(self, time):
         """ Check if time is within the data span
 
@@ -102,7 +111,7 @@ class InterferometerStrainData(object):
         """ Force the maximum frequency be less than the Nyquist frequency """
         if self.sampling_frequency is not None:
             if 2 * self._maximum_frequency > self.sampling_frequency:
-                self._maximum_frequency = self.sampling_frequency / 2.
+                return self.sampling_frequency / 2.
         return self._maximum_frequency
 
     @maximum_frequency.setter
@@ -144,6 +153,9 @@ class InterferometerStrainData(object):
         mask: np.ndarray
             An array of boolean values
         """
+        if self._frequency_mask_frequencies is not None and \
+                self._frequency_mask_frequencies is not self.frequency_array:
+            self._frequency_mask_updated = False
         if not self._frequency_mask_updated:
             frequency_array = self._times_and_frequencies.frequency_array
             mask = ((frequency_array >= self.minimum_frequency) &
@@ -151,18 +163,36 @@ class InterferometerStrainData(object):
             for notch in self.notch_list:
                 mask[notch.get_idxs(frequency_array)] = False
             self._frequency_mask = mask
+            self._frequency_mask_frequencies = frequency_array
             self._frequency_mask_updated = True
         return self._frequency_mask
 
     @frequency_mask.setter
     def frequency_mask(self, mask):
         self._frequency_mask = mask
+        self._frequency_mask_frequencies = None
         self._frequency_mask_updated = True
 
     @property
     def alpha(self):
         return 2 * self.roll_off / self.duration
 
+    @property
+    def window_factor(self):
+        """ The power loss due to the windowing of time-domain data """
+        if self._time_domain_strain is not None and not self._frequency_domain_strain_is_current:
+            self.time_domain_window()
+        return self._window_factor
+
+    @window_factor.setter
+    def window_factor(self, window_factor):
+        self._window_factor = window_factor
+
+    @property
+    def _frequency_domain_strain_is_current(self):
+        """ Whether the frequency domain strain matches the data and the window settings """
+        return self._frequency_domain_strain is not None and self._window_roll_off in (None, self.roll_off)
+
     def time_domain_window(self, roll_off=None, alpha=None):
         """
         Window function to apply to time domain data before FFTing.
@@ -188,7 +218,7 @@ class InterferometerStrainData(object):
             self.roll_off = roll_off
         elif alpha is not None:
             self.roll_off = alpha * self.duration / 2
-        window = tukey(len(self._time_domain_strain), alpha=self.alpha)
+        window = tukey(len(self.time_domain_strain), alpha=self.alpha)
         self.window_factor = np.mean(window ** 2)
         return window
 
@@ -196,12 +226,9 @@ class InterferometerStrainData(object):
     def time_domain_strain(self):
         """ The time domain strain, in units of strain """
         if self._time_domain_strain is not None:
-            return self._time_domain_strain
+            return np.array(self._time_domain_strain)
         elif self._frequency_domain_strain is not None:
-            self._time_domain_strain = utils.infft(
-                self.frequency_domain_strain, self.sampling_frequency)
-            return self._time_domain_strain
-
+            return utils.infft(self.frequency_domain_strain, self.sampling_frequency)
         else:
             raise ValueError("time domain strain data not yet set")
 
@@ -213,7 +240,7 @@ class InterferometerStrainData(object):
         strain / Hz, obtained by a one-sided Fourier transform of the
         time domain data, divided by the sampling frequency.
         """
-        if self._frequency_domain_strain is not None:
+        if self._frequency_domain_strain_is_current:
             return self._frequency_domain_strain * self.frequency_mask
         elif self._time_domain_strain is not None:
             logger.debug("Generating frequency domain strain from given time "
@@ -222,8 +249,11 @@ class InterferometerStrainData(object):
                 self.alpha, self.roll_off))
             # self.low_pass_filter()
             window = self.time_domain_window()
-            self._frequency_domain_strain, self.frequency_array = utils.nfft(
+            frequency_domain_strain, self.frequency_array = utils.nfft(
                 self._time_domain_strain * window, self.sampling_frequency)
+            self._frequency_domain_strain = None
+            self._window_roll_off = self.roll_off
+            self._frequency_domain_strain = frequency_domain_strain
             return self._frequency_domain_strain * self.frequency_mask
         else:
             raise ValueError("frequency domain strain data not yet set")
@@ -232,7 +262,13 @@ class InterferometerStrainData(object):
     def frequency_domain_strain(self, frequency_domain_strain):
         if not len(self.frequency_array) == len(frequency_domain_strain):
             raise ValueError("The frequency_array and the set strain have different lengths")
+        self._set_frequency_domain_strain(frequency_domain_strain, window_factor=self.window_factor)
+
+    def _set_frequency_domain_strain(self, frequency_domain_strain, window_factor=1):
+        """ Replace all strain data by the given frequency domain strain """
         self._frequency_domain_strain = frequency_domain_strain
+        self._window_factor = window_factor
+        self._window_roll_off = None
         self._time_domain_strain = None
 
     def to_gwpy_timeseries(self):
@@ -357,6 +393,8 @@ class InterferometerStrainData(object):
         bp = lowpass(filter_freq, self.sampling_frequency)
         strain = TimeSeries(self.time_domain_strain, sample_rate=self.sampling_frequency)
         strain = strain.filter(bp, filtfilt=True)
+        if self._time_domain_strain is not None:
+            self._frequency_domain_strain = None
         self._time_domain_strain = strain.value
 
     def create_power_spectral_density(
@@ -446,11 +484,13 @@ class InterferometerStrainData(object):
                     "an array")
             pass
         elif array is not None:
+            times_and_frequencies = CoupledTimeAndFrequencySeries()
             if domain == 'time':
-                self.time_array = array
+                times_and_frequencies.time_array = array
             elif domain == 'frequency':
-                self.frequency_array = array
-                self.start_time = start_time
+                times_and_frequencies.frequency_array = array
+                times_and_frequencies.start_time = start_time
+            self._times_and_frequencies = times_and_frequencies
             return
         elif sampling_frequency is None or duration is None:
             raise ValueError(
@@ -486,6 +526,7 @@ class InterferometerStrainData(object):
             given.
 
         """
+        previous = self._times_and_frequencies
         self._infer_time_domain_dependence(start_time=start_time,
                                            sampling_frequency=sampling_frequency,
                                            duration=duration,
@@ -496,6 +537,7 @@ class InterferometerStrainData(object):
             self._time_domain_strain = time_domain_strain
             self._frequency_domain_strain = None
         else:
+            self._times_and_frequencies = previous
             raise ValueError("Data times do not match time array")
 
     def set_from_gwpy_timeseries(self, time_series):
@@ -594,6 +636,7 @@ class InterferometerStrainData(object):
 
         """
 
+        previous = self._times_and_frequencies
         self._infer_frequency_domain_dependence(start_time=start_time,
                                                 sampling_frequency=sampling_frequency,
                                                 duration=duration,
@@ -601,9 +644,9 @@ class InterferometerStrainData(object):
 
         logger.debug('Setting data using provided frequency_domain_strain')
         if np.shape(frequency_domain_strain) == np.shape(self.frequency_array):
-            self._frequency_domain_strain = frequency_domain_strain
-            self.window_factor = 1
+            self._set_frequency_domain_strain(frequency_domain_strain)
         else:
+            self._times_and_frequencies = previous
             raise ValueError("Data frequencies do not match frequency_array")
 
     def set_from_power_spectral_density(
@@ -624,18 +667,19 @@ class InterferometerStrainData(object):
 
         """
 
-        self._times_and_frequencies = CoupledTimeAndFrequencySeries(duration=duration,
-                                                                    sampling_frequency=sampling_frequency,
-                                                                    start_time=start_time)
+        times_and_frequencies = CoupledTimeAndFrequencySeries(duration=duration,
+                                                              sampling_frequency=sampling_frequency,
+                                                              start_time=start_time)
         logger.debug(
             'Setting data using noise realization from provided'
             'power_spectal_density')
         frequency_domain_strain, frequency_array = \
             power_spectral_density.get_noise_realisation(
-                self.sampling_frequency, self.duration)
+                sampling_frequency, duration)
 
-        if np.array_equal(frequency_array, self.frequency_array):
-            self._frequency_domain_strain = frequency_domain_strain
+        if np.array_equal(frequency_array, times_and_frequencies.frequency_array):
+            self._times_and_frequencies = times_and_frequencies
+            self._set_frequency_domain_strain(frequency_domain_strain)
         else:
             raise ValueError("Data frequencies do not match frequency_array")
 
@@ -657,8 +701,7 @@ class InterferometerStrainData(object):
                                                                     sampling_frequency=sampling_frequency,
                                                                     start_time=start_time)
         logger.debug('Setting zero noise data')
-        self._frequency_domain_strain = np.zeros_like(self.frequency_array,
-                                                      dtype=complex)
+        self._set_frequency_domain_strain(np.zeros_like(self.frequency_array, dtype=complex))
 
     def set_from_frame_file(
             self, frame_file, sampling_frequency, duration, start_time=0,
-- 
2.43.0


From eab59fe10a1e93bdbad4a0660b07801f22b42a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 39/80] fix: restore the coalescence time exactly after
 applying the time jitter

---
 bilby/gw/likelihood/base.py | 65 ++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index d04b28d..09a976b 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -1,6 +1,7 @@
 
 import os
 import copy
+from contextlib import contextmanager
 
 import attr
 import numpy as np
@@ -403,30 +404,39 @@ class GravitationalWaveTransient(Likelihood):
             self._noise_log_likelihood_value = self._calculate_noise_log_likelihood()
         return self._noise_log_likelihood_value
 
+    @contextmanager
+    def _jittered_time(self):
+        """ Temporarily apply the time jitter to the geocenter time in :code:`self.parameters`. """
+        if not (self.time_marginalization and self.jitter_time):
+            yield
+            return
+        parameters = self.parameters
+        geocent_time = parameters['geocent_time']
+        try:
+            parameters['geocent_time'] = geocent_time + parameters['time_jitter']
+            yield
+        finally:
+            parameters['geocent_time'] = geocent_time
+
     def log_likelihood_ratio(self):
         waveform_polarizations = \
             self.waveform_generator.frequency_domain_strain(self.parameters)
         if waveform_polarizations is None:
             return np.nan_to_num(-np.inf)
 
-        if self.time_marginalization and self.jitter_time:
-            self.parameters['geocent_time'] += self.parameters['time_jitter']
+        with self._jittered_time():
+            self.parameters.update(self.get_sky_frame_parameters())
 
-        self.parameters.update(self.get_sky_frame_parameters())
-
-        total_snrs = self._CalculatedSNRs()
-
-        for interferometer in self.interferometers:
-            per_detector_snr = self.calculate_snrs(
-                waveform_polarizations=waveform_polarizations,
-                interferometer=interferometer)
+            total_snrs = self._CalculatedSNRs()
 
-            total_snrs += per_detector_snr
+            for interferometer in self.interferometers:
+                per_detector_snr = self.calculate_snrs(
+                    waveform_polarizations=waveform_polarizations,
+                    interferometer=interferometer)
 
-        log_l = self.compute_log_likelihood_from_snrs(total_snrs)
+                total_snrs += per_detector_snr
 
-        if self.time_marginalization and self.jitter_time:
-            self.parameters['geocent_time'] -= self.parameters['time_jitter']
+            log_l = self.compute_log_likelihood_from_snrs(total_snrs)
 
         return float(log_l.real)
 
@@ -459,21 +469,16 @@ class GravitationalWaveTransient(Likelihood):
         waveform_polarizations = \
             self.waveform_generator.frequency_domain_strain(self.parameters)
 
-        if self.time_marginalization and self.jitter_time:
-            self.parameters['geocent_time'] += self.parameters['time_jitter']
+        with self._jittered_time():
+            self.parameters.update(self.get_sky_frame_parameters())
 
-        self.parameters.update(self.get_sky_frame_parameters())
+            for interferometer in self.interferometers:
+                per_detector_snr = self.calculate_snrs(
+                    waveform_polarizations=waveform_polarizations,
+                    interferometer=interferometer)
 
-        for interferometer in self.interferometers:
-            per_detector_snr = self.calculate_snrs(
-                waveform_polarizations=waveform_polarizations,
-                interferometer=interferometer)
-
-            self.parameters['{}_log_likelihood'.format(interferometer.name)] = \
-                self.compute_log_likelihood_from_snrs(per_detector_snr)
-
-        if self.time_marginalization and self.jitter_time:
-            self.parameters['geocent_time'] -= self.parameters['time_jitter']
+                self.parameters['{}_log_likelihood'.format(interferometer.name)] = \
+                    self.compute_log_likelihood_from_snrs(per_detector_snr)
 
         return self.parameters.copy()
 
@@ -574,8 +579,10 @@ class GravitationalWaveTransient(Likelihood):
             Sample from the time posterior.
         """
         self.parameters.update(self.get_sky_frame_parameters())
-        if self.jitter_time:
-            self.parameters['geocent_time'] += self.parameters['time_jitter']
+        with self._jittered_time():
+            return self._generate_time_sample(signal_polarizations)
+
+    def _generate_time_sample(self, signal_polarizations):
         if signal_polarizations is None:
             signal_polarizations = \
                 self.waveform_generator.frequency_domain_strain(self.parameters)
-- 
2.43.0


From 9721664b324994ed7e4a673047d0b1c92b547060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 40/80] fix: discard the cached waveform before changing the
 ROQ basis

---
 bilby/gw/likelihood/roq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/gw/likelihood/roq.py b/bilby/gw/likelihood/roq.py
index fddfa92..ee818d3 100644
--- a/bilby/gw/likelihood/roq.py
+++ b/bilby/gw/likelihood/roq.py
@@ -382,6 +382,7 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
         - frequency_nodes_linear/quadratic in self._waveform_generator.waveform_arguments
 
         """
+        self._cache['parameters'] = None
         parameters = self.parameters.copy()
         if self.parameter_conversion is not None:
             parameters = self.parameter_conversion(parameters)
-- 
2.43.0


From 9ce83ba29d025c0e75a263889c1190b74a7fdf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:24 +0000
Subject: [PATCH 41/80] fix: discard strain that was windowed with another
 roll-off

---
 bilby/gw/detector/strain_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 66075e6..60ea8c3 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -218,6 +218,8 @@ class InterferometerStrainData(object):
             self.roll_off = roll_off
         elif alpha is not None:
             self.roll_off = alpha * self.duration / 2
+        if self._time_domain_strain is not None and not self._frequency_domain_strain_is_current:
+            self._frequency_domain_strain = None
         window = tukey(len(self.time_domain_strain), alpha=self.alpha)
         self.window_factor = np.mean(window ** 2)
         return window
-- 
2.43.0


From 72770dfc2a25e0f41a39e4deb2c383036f056fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:44 +0000
Subject: [PATCH 42/80] fix: write lookup tables and weights completely or not
 at all

---
 bilby/core/utils/io.py           | 29 +++++++++++++++++++++++++++++
 bilby/gw/likelihood/multiband.py |  4 ++--
 bilby/gw/likelihood/roq.py       | 11 +++++++----
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index a9cccc2..ac3688d 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -4,6 +4,7 @@ import json
 import os
 import shutil
 import uuid
+from contextlib import contextmanager
 from importlib import import_module
 from pathlib import Path
 from datetime import timedelta
@@ -402,6 +403,34 @@ def safe_file_dump(data, filename, module):
         raise
 
 
+@contextmanager
+def safe_file_replacement(filename):
+    """ Write a file such that it is either replaced completely or left as it was
+
+    Parameters
+    ==========
+    filename: str
+        The file to write
+
+    Yields
+    ======
+    temp_filename: str
+        The name of a temporary file next to :code:`filename`. It has to be
+        written within the context and replaces :code:`filename` at its end. If
+        the context is left with an exception the temporary file is removed.
+    """
+    temp_filename = f"{filename}.{uuid.uuid4().hex}.temp"
+    try:
+        yield temp_filename
+        with open(temp_filename, "rb+") as file:
+            os.fsync(file.fileno())
+        os.replace(temp_filename, filename)
+    except BaseException:
+        if os.path.exists(temp_filename):
+            os.remove(temp_filename)
+        raise
+
+
 def move_old_file(filename, overwrite=False):
     """ Moves or removes an old file.
 
diff --git a/bilby/gw/likelihood/multiband.py b/bilby/gw/likelihood/multiband.py
index bec333e..cd7eaa2 100644
--- a/bilby/gw/likelihood/multiband.py
+++ b/bilby/gw/likelihood/multiband.py
@@ -9,7 +9,7 @@ from ...core.utils import (
     logger, speed_of_light, solar_mass, radius_of_earth,
     gravitational_constant, round_up_to_power_of_two,
     recursively_load_dict_contents_from_group,
-    recursively_save_dict_contents_to_group
+    recursively_save_dict_contents_to_group, safe_file_replacement
 )
 from ..prior import CBCPriorDict
 
@@ -665,7 +665,7 @@ class MBGravitationalWaveTransient(GravitationalWaveTransient):
         if not filename.endswith(".hdf5"):
             filename += ".hdf5"
         logger.info(f"Saving multiband weights to {filename}")
-        with h5py.File(filename, 'w') as f:
+        with safe_file_replacement(filename) as temp_filename, h5py.File(temp_filename, 'w') as f:
             recursively_save_dict_contents_to_group(f, '/', self.weights)
 
     def setup_multibanding_from_weights(self, weights):
diff --git a/bilby/gw/likelihood/roq.py b/bilby/gw/likelihood/roq.py
index ee818d3..59c09a8 100644
--- a/bilby/gw/likelihood/roq.py
+++ b/bilby/gw/likelihood/roq.py
@@ -6,7 +6,7 @@ import numpy as np
 from .base import GravitationalWaveTransient
 from ...core.utils import BilbyJsonEncoder, decode_bilby_json
 from ...core.utils import (
-    logger, create_frequency_series, speed_of_light, radius_of_earth
+    logger, create_frequency_series, speed_of_light, radius_of_earth, safe_file_replacement
 )
 from ..prior import CBCPriorDict
 from ..utils import ln_i0
@@ -1028,13 +1028,16 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
                     key = f'{ifo.name}_{basis_type}'
                     weights[key] = self.weights[key][0]
             if format == 'json':
-                with open(filename, 'w') as file:
+                with safe_file_replacement(filename) as temp_filename, open(temp_filename, 'w') as file:
                     json.dump(weights, file, indent=2, cls=BilbyJsonEncoder)
             else:
-                np.savez(filename, **weights)
+                if not filename.endswith('.npz'):
+                    filename += '.npz'
+                with safe_file_replacement(filename) as temp_filename, open(temp_filename, 'wb') as file:
+                    np.savez(file, **weights)
         else:
             import h5py
-            with h5py.File(filename, 'w') as f:
+            with safe_file_replacement(filename) as temp_filename, h5py.File(temp_filename, 'w') as f:
                 f.create_dataset('time_samples',
                                  data=self.weights['time_samples'])
                 for basis_type in ['linear', 'quadratic']:
-- 
2.43.0


From 74846c9b05c804e668b06c3abacd86a627c10736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:44 +0000
Subject: [PATCH 43/80] fix: write calibration files completely and read the
 parameters that belong to the curves

---
 bilby/gw/detector/calibration.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/bilby/gw/detector/calibration.py b/bilby/gw/detector/calibration.py
index 51f776c..1140a5b 100644
--- a/bilby/gw/detector/calibration.py
+++ b/bilby/gw/detector/calibration.py
@@ -7,6 +7,7 @@ import numpy as np
 import pandas as pd
 from scipy.interpolate import interp1d
 
+from ...core.utils.io import safe_file_replacement
 from ...core.utils.log import logger
 from ...core.prior.dict import PriorDict
 from ..prior import CalibrationPriorDict
@@ -61,6 +62,7 @@ def read_calibration_file(filename, frequency_array, number_of_response_curves,
 
     try:
         parameter_draws = pd.read_hdf(filename, key="CalParams")
+        parameter_draws = parameter_draws.iloc[starting_index:number_of_response_curves + starting_index]
     except KeyError:
         parameter_draws = None
 
@@ -87,19 +89,20 @@ def write_calibration_file(filename, frequency_array, calibration_draws, calibra
     import tables
 
     logger.info(f"Writing calibration draws to {filename}")
-    calibration_file = tables.open_file(filename, 'w')
-    deltaR_group = calibration_file.create_group(calibration_file.root, 'deltaR')
+    with safe_file_replacement(filename) as temp_filename:
+        calibration_file = tables.open_file(temp_filename, 'w')
+        deltaR_group = calibration_file.create_group(calibration_file.root, 'deltaR')
 
-    # Save output
-    calibration_file.create_carray(deltaR_group, 'draws_amp_rel', obj=np.abs(calibration_draws))
-    calibration_file.create_carray(deltaR_group, 'draws_phase', obj=np.angle(calibration_draws))
-    calibration_file.create_carray(deltaR_group, 'freq', obj=frequency_array)
+        # Save output
+        calibration_file.create_carray(deltaR_group, 'draws_amp_rel', obj=np.abs(calibration_draws))
+        calibration_file.create_carray(deltaR_group, 'draws_phase', obj=np.angle(calibration_draws))
+        calibration_file.create_carray(deltaR_group, 'freq', obj=frequency_array)
 
-    calibration_file.close()
+        calibration_file.close()
 
-    # Save calibration parameter draws
-    if calibration_parameter_draws is not None:
-        calibration_parameter_draws.to_hdf(filename, key='CalParams', data_columns=True, format='table')
+        # Save calibration parameter draws
+        if calibration_parameter_draws is not None:
+            calibration_parameter_draws.to_hdf(temp_filename, key='CalParams', data_columns=True, format='table')
 
 
 class Recalibrate(object):
@@ -407,6 +410,11 @@ def build_calibration_lookup(
                 number_of_response_curves,
                 starting_index,
             )
+            if len(draws[name]) != number_of_response_curves:
+                raise ValueError(
+                    f"Calibration file {filename} contains only {len(draws[name])} response curves from index "
+                    f"{starting_index}, {number_of_response_curves} are required."
+                )
         elif isinstance(interferometer.calibration_model, Precomputed):
             model = interferometer.calibration_model
             idxs = np.arange(number_of_response_curves, dtype=int) + starting_index
-- 
2.43.0


From 940581df5a5b4f9007f5bfe609cfdf981729edc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:44 +0000
Subject: [PATCH 44/80] fix: use a distance marginalization table only if it is
 readable and matches the settings

---
 bilby/gw/likelihood/base.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index 09a976b..13fac5a 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -8,7 +8,7 @@ import numpy as np
 from scipy.special import logsumexp
 
 from ...core.likelihood import Likelihood
-from ...core.utils import logger, BoundedRectBivariateSpline, create_time_series
+from ...core.utils import logger, BoundedRectBivariateSpline, create_time_series, safe_file_replacement
 from ...core.prior import Interped, Prior, Uniform, DeltaFunction
 from ..detector import InterferometerList, get_empty_interferometer, calibration
 from ..prior import BBHPriorDict, Cosmological
@@ -891,7 +891,8 @@ class GravitationalWaveTransient(Likelihood):
             lookup_table = self.load_lookup_table(
                 self.cached_lookup_table_filename)
         if isinstance(lookup_table, dict):
-            if self._test_cached_lookup_table(lookup_table):
+            match, _ = self._test_cached_lookup_table(lookup_table)
+            if match:
                 self._dist_margd_loglikelihood_array = lookup_table[
                     'lookup_table']
             else:
@@ -920,9 +921,10 @@ class GravitationalWaveTransient(Likelihood):
         if os.path.exists(filename):
             try:
                 loaded_file = dict(np.load(filename))
-            except AttributeError as e:
-                logger.warning(e)
-                self._create_lookup_table()
+            except Exception as e:
+                logger.warning(
+                    'Distance marginalisation lookup table {} cannot be '
+                    'read: {}'.format(filename, e))
                 return None
             match, failure = self._test_cached_lookup_table(loaded_file)
             if match:
@@ -938,12 +940,13 @@ class GravitationalWaveTransient(Likelihood):
         return None
 
     def cache_lookup_table(self):
-        np.savez(self.cached_lookup_table_filename,
-                 distance_array=self._distance_array,
-                 prior_array=self.distance_prior_array,
-                 lookup_table=self._dist_margd_loglikelihood_array,
-                 reference_distance=self._ref_dist,
-                 phase_marginalization=self.phase_marginalization)
+        with safe_file_replacement(self.cached_lookup_table_filename) as filename, open(filename, 'wb') as file:
+            np.savez(file,
+                     distance_array=self._distance_array,
+                     prior_array=self.distance_prior_array,
+                     lookup_table=self._dist_margd_loglikelihood_array,
+                     reference_distance=self._ref_dist,
+                     phase_marginalization=self.phase_marginalization)
 
     def _test_cached_lookup_table(self, loaded_file):
         pairs = dict(
@@ -954,10 +957,11 @@ class GravitationalWaveTransient(Likelihood):
         for key in pairs:
             if key not in loaded_file:
                 return False, key
-            elif not np.allclose(np.atleast_1d(loaded_file[key]),
-                                 np.atleast_1d(pairs[key]),
-                                 rtol=1e-15):
+            stored, expected = np.atleast_1d(loaded_file[key]), np.atleast_1d(pairs[key])
+            if stored.shape != expected.shape or not np.allclose(stored, expected, rtol=1e-10, atol=0):
                 return False, key
+        if np.ndim(loaded_file.get('lookup_table')) != 2:
+            return False, 'lookup_table'
         return True, None
 
     def _create_lookup_table(self):
-- 
2.43.0


From 935354fbf30f5a29091a900de805d5d9bf562f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:56 +0000
Subject: [PATCH 45/80] fix: check the bounds of every parameter of every
 sample of a joint prior

---
 bilby/core/prior/joint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index 43c8913..f44a1f4 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -209,11 +209,9 @@ class BaseJointPriorDist(object):
             raise ValueError("Array is the wrong shape")
 
         # check sample(s) is within bounds
-        outbounds = np.ones(samp.shape[0], dtype=bool)
+        outbounds = np.zeros(samp.shape[0], dtype=bool)
         for s, bound in zip(samp.T, self.bounds.values()):
-            outbounds = (s < bound[0]) | (s > bound[1])
-            if np.any(outbounds):
-                break
+            outbounds |= (s < bound[0]) | (s > bound[1])
         return samp, outbounds
 
     def ln_prob(self, value):
-- 
2.43.0


From dad414b43628c4605c02996d43bea1840c8294d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:19 +0000
Subject: [PATCH 46/80] fix: give every parameter of a joint prior its own
 rescaled value

---
 bilby/core/prior/dict.py | 45 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 3722c62..3c15989 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -609,9 +609,45 @@ class PriorDict(dict):
         """
         from matplotlib.cbook import flatten
 
-        return list(
-            flatten([self[key].rescale(sample) for key, sample in zip(keys, theta)])
-        )
+        keys = list(keys)
+        result = dict()
+        for key, sample in zip(keys, theta):
+            result[key] = self[key].rescale(sample)
+            self._distribute_joint_values(key, result)
+        return list(flatten([result[key] for key in keys]))
+
+    def _distribute_joint_values(self, key, values):
+        """Give every parameter of a joint distribution its own value
+
+        The last of the parameters of a joint distribution to be rescaled
+        returns the values of all of them, in the order of the distribution.
+
+        Parameters
+        ==========
+        key: str
+            The key that was rescaled last
+        values: dict
+            The values obtained so far, this is changed in place
+
+        Returns
+        =======
+        list: The keys that values have been set for
+        """
+        if not isinstance(self[key], JointPrior):
+            return [key]
+        dist = self[key].dist
+        joint_values = np.asarray(values[key])
+        if joint_values.size == 0:
+            return list()
+        joint_values = joint_values.reshape((-1, len(dist))).T
+        keys = list()
+        for joint_key in values:
+            prior = self[joint_key]
+            if isinstance(prior, JointPrior) and prior.dist is dist:
+                value = joint_values[dist.names.index(prior.name)]
+                values[joint_key] = value if len(value) > 1 else value[0]
+                keys.append(joint_key)
+        return keys
 
     def test_redundancy(self, key, disable_logging=False):
         """Empty redundancy test, should be overwritten in subclasses"""
@@ -851,7 +887,8 @@ class ConditionalPriorDict(PriorDict):
             result[key] = self[key].rescale(
                 theta[index], **self.get_required_variables(key)
             )
-            self[key].least_recently_sampled = result[key]
+            for rescaled_key in self._distribute_joint_values(key, result):
+                self[rescaled_key].least_recently_sampled = result[rescaled_key]
         return list(flatten([result[key] for key in keys]))
 
     def _update_rescale_keys(self, keys):
-- 
2.43.0


From c0690725c0dc1d2ec859f66061420e9e29707c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:32 +0000
Subject: [PATCH 47/80] fix: start every request to a prior set without
 leftovers of an incomplete one

---
 bilby/core/prior/dict.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 3c15989..354d9a1 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -304,6 +304,21 @@ class PriorDict(dict):
                 )
         self.update(dictionary)
 
+    def _reset_joint_requests(self, keys):
+        """Forget what an earlier incomplete request left in the joint distributions
+
+        Parameters
+        ==========
+        keys: list
+            The keys that are about to be sampled, evaluated, or rescaled
+        """
+        for key in keys:
+            prior = self.get(key, None)
+            if isinstance(prior, JointPrior):
+                prior.dist.reset_request()
+                prior.dist.reset_rescale()
+                prior.dist.reset_sampled()
+
     def convert_floats_to_delta_functions(self):
         """Convert all float parameters to delta functions"""
         for key in self:
@@ -412,6 +427,8 @@ class PriorDict(dict):
         dict: Dictionary of the drawn samples
         """
         self.convert_floats_to_delta_functions()
+        keys = list(keys)
+        self._reset_joint_requests(keys)
         samples = dict()
         for key in keys:
             if isinstance(self[key], Constraint):
@@ -514,6 +531,7 @@ class PriorDict(dict):
         float: Joint probability of all individual sample probabilities
 
         """
+        self._reset_joint_requests(sample)
         prob = np.prod([self[key].prob(sample[key]) for key in sample], **kwargs)
 
         return self.check_prob(sample, prob)
@@ -553,6 +571,7 @@ class PriorDict(dict):
             Joint log probability of all the individual sample probabilities
 
         """
+        self._reset_joint_requests(sample)
         ln_prob = np.sum([self[key].ln_prob(sample[key]) for key in sample], axis=axis)
         return self.check_ln_prob(sample, ln_prob,
                                   normalized=normalized)
@@ -610,6 +629,7 @@ class PriorDict(dict):
         from matplotlib.cbook import flatten
 
         keys = list(keys)
+        self._reset_joint_requests(keys)
         result = dict()
         for key, sample in zip(keys, theta):
             result[key] = self[key].rescale(sample)
@@ -756,7 +776,9 @@ class ConditionalPriorDict(PriorDict):
             for key in self.keys()
             if key not in keys and isinstance(self[key], DeltaFunction)
         ]
-        use_keys = add_delta_keys + list(keys)
+        keys = list(keys)
+        self._reset_joint_requests(keys)
+        use_keys = add_delta_keys + keys
         subset_dict = ConditionalPriorDict({key: self[key] for key in use_keys})
         if not subset_dict._resolved:
             raise IllegalConditionsException(
@@ -818,6 +840,7 @@ class ConditionalPriorDict(PriorDict):
 
         """
         self._prepare_evaluation(*zip(*sample.items()))
+        self._reset_joint_requests(sample)
         res = [
             self[key].prob(sample[key], **self.get_required_variables(key))
             for key in sample
@@ -844,6 +867,7 @@ class ConditionalPriorDict(PriorDict):
 
         """
         self._prepare_evaluation(*zip(*sample.items()))
+        self._reset_joint_requests(sample)
         res = [
             self[key].ln_prob(sample[key], **self.get_required_variables(key))
             for key in sample
@@ -880,6 +904,7 @@ class ConditionalPriorDict(PriorDict):
         theta = list(theta)
         self._check_resolved()
         self._update_rescale_keys(keys)
+        self._reset_joint_requests(keys)
         result = dict()
         for key, index in zip(
             self.sorted_keys_without_fixed_parameters, self._rescale_indexes
-- 
2.43.0


From 0021e57713a840ec74d20e53dfd62a66c4def921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:11 +0000
Subject: [PATCH 48/80] fix: keep a conditional prior set resolved when entries
 are updated or removed

---
 bilby/core/prior/dict.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 354d9a1..61b55ef 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -761,6 +761,9 @@ class ConditionalPriorDict(PriorDict):
         if len(conditional_keys_unsorted) != 0:
             self._resolved = False
 
+        # The order of the keys may have changed
+        self._least_recently_rescaled_keys = []
+
     def _check_conditions_resolved(self, key, sampled_keys):
         """Checks if all required variables have already been sampled so we can sample this key"""
         conditions_resolved = True
@@ -963,6 +966,29 @@ class ConditionalPriorDict(PriorDict):
         super(ConditionalPriorDict, self).__delitem__(key)
         self._resolve_conditions()
 
+    def update(self, *args, **kwargs):
+        super(ConditionalPriorDict, self).update(*args, **kwargs)
+        self._resolve_conditions()
+
+    def setdefault(self, *args):
+        value = super(ConditionalPriorDict, self).setdefault(*args)
+        self._resolve_conditions()
+        return value
+
+    def pop(self, *args):
+        value = super(ConditionalPriorDict, self).pop(*args)
+        self._resolve_conditions()
+        return value
+
+    def popitem(self):
+        item = super(ConditionalPriorDict, self).popitem()
+        self._resolve_conditions()
+        return item
+
+    def clear(self):
+        super(ConditionalPriorDict, self).clear()
+        self._resolve_conditions()
+
 
 class DirichletPriorDict(ConditionalPriorDict):
     def __init__(self, n_dim=None, label="dirichlet_"):
-- 
2.43.0


From 0d1621c1a719020bbadc919fc4065be8b786022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:11 +0000
Subject: [PATCH 49/80] fix: condition on all samples of a parameter that had
 to be drawn one by one

---
 bilby/core/prior/dict.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 61b55ef..097c386 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -799,13 +799,17 @@ class ConditionalPriorDict(PriorDict):
                 except ValueError:
                     # Some prior classes can not handle an array of conditional parameters (e.g. alpha for PowerLaw)
                     # If that is the case, we sample each sample individually.
-                    required_variables = subset_dict.get_required_variables(key)
                     samples[key] = np.zeros(size)
-                    for i in range(size):
+                    required_variables = {
+                        k: np.broadcast_to(value, samples[key].shape)
+                        for k, value in subset_dict.get_required_variables(key).items()
+                    }
+                    for i in np.ndindex(samples[key].shape):
                         rvars = {
                             key: value[i] for key, value in required_variables.items()
                         }
                         samples[key][i] = subset_dict[key].sample(**rvars)
+                    subset_dict[key].least_recently_sampled = samples[key]
             else:
                 logger.debug("{} not a known prior.".format(key))
         return samples
-- 
2.43.0


From de51c53bd6e580eaa8d8772f6e2f6e89df527fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 50/80] fix: condition on the value a fixed parameter has, not
 on the last one drawn

---
 bilby/core/prior/dict.py | 45 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 097c386..744daf5 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -761,6 +761,10 @@ class ConditionalPriorDict(PriorDict):
         if len(conditional_keys_unsorted) != 0:
             self._resolved = False
 
+        self._fixed_keys = [
+            key for key in self.sorted_keys if isinstance(self[key], DeltaFunction)
+        ]
+
         # The order of the keys may have changed
         self._least_recently_rescaled_keys = []
 
@@ -789,7 +793,10 @@ class ConditionalPriorDict(PriorDict):
             )
         samples = dict()
         for key in subset_dict.sorted_keys:
-            if key not in keys or isinstance(self[key], Constraint):
+            if key not in keys:
+                subset_dict._set_fixed_parameter(key)
+                continue
+            if isinstance(self[key], Constraint):
                 continue
             if isinstance(self[key], Prior):
                 try:
@@ -814,6 +821,22 @@ class ConditionalPriorDict(PriorDict):
                 logger.debug("{} not a known prior.".format(key))
         return samples
 
+    def _set_fixed_parameter(self, key):
+        """Set the value of a fixed parameter that other parameters may depend on
+
+        The value is the one from the last call otherwise, which may have been
+        made for many samples, or for other values of the parameters that a
+        conditional delta function depends on.
+
+        Parameters
+        ==========
+        key : str
+            Name of the fixed parameter
+        """
+        self[key].least_recently_sampled = self[key].rescale(
+            1.0, **self.get_required_variables(key)
+        )
+
     def get_required_variables(self, key):
         """Returns the required variables to sample a given conditional key.
 
@@ -913,11 +936,16 @@ class ConditionalPriorDict(PriorDict):
         self._update_rescale_keys(keys)
         self._reset_joint_requests(keys)
         result = dict()
-        for key, index in zip(
-            self.sorted_keys_without_fixed_parameters, self._rescale_indexes
-        ):
+        indexes = dict(
+            zip(self.sorted_keys_without_fixed_parameters, self._rescale_indexes)
+        )
+        for key in self.sorted_keys:
+            if isinstance(self[key], DeltaFunction):
+                self._set_fixed_parameter(key)
+            if key not in indexes:
+                continue
             result[key] = self[key].rescale(
-                theta[index], **self.get_required_variables(key)
+                theta[indexes[key]], **self.get_required_variables(key)
             )
             for rescaled_key in self._distribute_joint_values(key, result):
                 self[rescaled_key].least_recently_sampled = result[rescaled_key]
@@ -935,6 +963,13 @@ class ConditionalPriorDict(PriorDict):
         self._check_resolved()
         for key, value in zip(keys, theta):
             self[key].least_recently_sampled = value
+        known_keys = set(keys)
+        for key in self._fixed_keys:
+            if key not in known_keys and known_keys.issuperset(
+                getattr(self[key], "required_variables", [])
+            ):
+                self._set_fixed_parameter(key)
+                known_keys.add(key)
 
     def _check_resolved(self):
         if not self._resolved:
-- 
2.43.0


From 5cc3e587255f3d7bea756117155ba51dfec14794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:22 +0000
Subject: [PATCH 51/80] fix: keep the conversion function and all entries when
 copying a prior set

---
 bilby/core/prior/dict.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 744daf5..6983ddd 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -701,7 +701,10 @@ class PriorDict(dict):
         We have to overwrite the copy method as it fails due to the presence of
         defaults.
         """
-        return self.__class__(dictionary=dict(self))
+        new = self.__class__(dictionary=dict(self))
+        if getattr(self.conversion_function, "__self__", None) is not self:
+            new.conversion_function = self.conversion_function
+        return new
 
 
 class PriorDictException(Exception):
@@ -1042,7 +1045,13 @@ class DirichletPriorDict(ConditionalPriorDict):
             )
 
     def copy(self, **kwargs):
-        return self.__class__(n_dim=self.n_dim, label=self.label)
+        new = self.__class__(n_dim=self.n_dim, label=self.label)
+        new.update(self)
+        for key in set(new) - set(self):
+            del new[key]
+        if getattr(self.conversion_function, "__self__", None) is not self:
+            new.conversion_function = self.conversion_function
+        return new
 
     def _get_json_dict(self):
         total_dict = dict()
-- 
2.43.0


From be6189ec9b08b4cd89e32362cad84e99cd6bf136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:42 +0000
Subject: [PATCH 52/80] fix: evaluate and rescale every sample of a HEALPix
 prior on its own

---
 bilby/gw/prior.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index b353c60..e6c5cd0 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -1437,7 +1437,7 @@ class HealPixMapPriorDist(BaseJointPriorDist):
                 self.update_distance(int(round(val)))
                 dist_samples[i] = self.distance_icdf(dist_samp[i])
         if self.distance:
-            sample = np.vstack([sample[:, 0], sample[:, 1], dist_samples])
+            sample = np.column_stack([sample[:, 0], sample[:, 1], dist_samples])
         return sample.reshape((-1, self.num_vars))
 
     def update_distance(self, pix_idx):
@@ -1537,7 +1537,7 @@ class HealPixMapPriorDist(BaseJointPriorDist):
         dist = self.distance_icdf(random.rng.uniform(0, 1))
         name = self.names[-1]
         if (dist > self.bounds[name][1]) | (dist < self.bounds[name][0]):
-            self.draw_distance(pix)
+            return self.draw_distance(pix)
         else:
             return dist
 
@@ -1614,9 +1614,9 @@ class HealPixMapPriorDist(BaseJointPriorDist):
         for i in range(samp.shape[0]):
             if not outbounds[i]:
                 if self.distance:
-                    phi, dec, dist = samp[0]
+                    phi, dec, dist = samp[i]
                 else:
-                    phi, dec = samp[0]
+                    phi, dec = samp[i]
                 theta = 0.5 * np.pi - dec
                 pixel = self.hp.ang2pix(self.nside, theta, phi)
                 lnprob[i] = np.log(self.prob[pixel] / self.pixel_area)
-- 
2.43.0


From 106892c65e948ecf31eafb4feb9e5327572e8335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:27 +0000
Subject: [PATCH 53/80] fix: allow HEALPix priors to be copied and pickled

---
 bilby/gw/prior.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index e6c5cd0..f35c232 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -1,5 +1,6 @@
 import os
 import copy
+from functools import partial
 
 import numpy as np
 from scipy.interpolate import InterpolatedUnivariateSpline, interp1d
@@ -1339,7 +1340,6 @@ class HealPixMapPriorDist(BaseJointPriorDist):
         A JointPriorDist object to store the joint prior distribution according to passed healpix map
     """
     def __init__(self, hp_file, names=None, bounds=None, distance=False):
-        self.hp = self._check_imports()
         self.hp_file = hp_file
         if names is None:
             names = ["ra", "dec"]
@@ -1404,6 +1404,11 @@ class HealPixMapPriorDist(BaseJointPriorDist):
             raise ImportError("Must have healpy installed on this machine to use HealPixMapPrior")
         return healpy
 
+    @property
+    def hp(self):
+        # Not an attribute as modules can not be copied or pickled
+        return self._check_imports()
+
     def _rescale(self, samp, **kwargs):
         """
         Overwrites the _rescale method of BaseJoint Prior to rescale a single value from the unitcube onto
@@ -1456,13 +1461,16 @@ class HealPixMapPriorDist(BaseJointPriorDist):
         None : None
             just updates these functions at new pixel values
         """
-        self.distance_pdf = lambda r: self.distnorm[pix_idx] * norm(
-            loc=self.distmu[pix_idx], scale=self.distsigma[pix_idx]
-        ).pdf(r)
+        self.distance_pdf = partial(self._distance_pdf_at_pixel, pix_idx)
         pdfs = self.rs ** 2 * self.distance_pdf(self.rs)
         cdfs = np.cumsum(pdfs) / np.sum(pdfs)
         self.distance_icdf = interp1d(cdfs, self.rs)
 
+    def _distance_pdf_at_pixel(self, pix_idx, r):
+        return self.distnorm[pix_idx] * norm(
+            loc=self.distmu[pix_idx], scale=self.distsigma[pix_idx]
+        ).pdf(r)
+
     @staticmethod
     def _check_norm(array):
         """
-- 
2.43.0


From c188dabda18f7509788d9cd10350f56f76023fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:55 +0000
Subject: [PATCH 54/80] fix: recompute the normalization of a prior set when
 its entries change

---
 bilby/core/prior/dict.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 6983ddd..86211e7 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -53,6 +53,39 @@ class PriorDict(dict):
         else:
             self.conversion_function = self.default_conversion_function
 
+    def __setitem__(self, key, value):
+        old_value = self.get(key, None)
+        super(PriorDict, self).__setitem__(key, value)
+        if isinstance(value, Constraint) or (
+            old_value is not None and old_value is not value
+        ):
+            self._cached_normalizations = {}
+
+    def __delitem__(self, key):
+        super(PriorDict, self).__delitem__(key)
+        self._cached_normalizations = {}
+
+    def update(self, *args, **kwargs):
+        super(PriorDict, self).update(*args, **kwargs)
+        self._cached_normalizations = {}
+
+    def setdefault(self, *args):
+        if args[0] not in self:
+            self._cached_normalizations = {}
+        return super(PriorDict, self).setdefault(*args)
+
+    def pop(self, *args):
+        self._cached_normalizations = {}
+        return super(PriorDict, self).pop(*args)
+
+    def popitem(self):
+        self._cached_normalizations = {}
+        return super(PriorDict, self).popitem()
+
+    def clear(self):
+        self._cached_normalizations = {}
+        super(PriorDict, self).clear()
+
     def evaluate_constraints(self, sample):
         out_sample = self.conversion_function(sample)
         prob = 1
-- 
2.43.0


From 55fd6538d24c6cbd2085562bbdaf6de09efcdd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:11 +0000
Subject: [PATCH 55/80] fix: report when a grid can not be saved and keep the
 file it replaces until then

Saving logged the exception and returned as if the grid was written, after the
existing file had been removed. Write to a temporary file, keep label and
output directory when reading.
---
 bilby/core/grid.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/bilby/core/grid.py b/bilby/core/grid.py
index 4e88168..9220661 100644
--- a/bilby/core/grid.py
+++ b/bilby/core/grid.py
@@ -8,6 +8,7 @@ from .utils import (
     logtrapzexp, check_directory_exists_and_if_not_mkdir, logger,
     BilbyJsonEncoder, load_json, move_old_file
 )
+from .utils.io import safe_file_replacement
 from .result import FileMovedError
 
 
@@ -398,23 +399,27 @@ class Grid(object):
 
             filename = grid_file_name(outdir, self.label, gzip)
 
-        move_old_file(filename, overwrite)
         dictionary = self._get_save_data_dictionary()
 
         try:
             dictionary["priors"] = dictionary["priors"]._get_json_dict()
-            if gzip or (os.path.splitext(filename)[-1] == '.gz'):
-                import gzip
-                # encode to a string
-                json_str = json.dumps(dictionary, cls=BilbyJsonEncoder).encode('utf-8')
-                with gzip.GzipFile(filename, 'w') as file:
-                    file.write(json_str)
-            else:
-                with open(filename, 'w') as file:
-                    json.dump(dictionary, file, indent=2, cls=BilbyJsonEncoder)
+            # An existing file is only replaced once the new one is complete
+            with safe_file_replacement(filename) as temp_filename:
+                if gzip or (os.path.splitext(filename)[-1] == '.gz'):
+                    import gzip
+                    # encode to a string
+                    json_str = json.dumps(dictionary, cls=BilbyJsonEncoder).encode('utf-8')
+                    with gzip.GzipFile(temp_filename, 'w') as file:
+                        file.write(json_str)
+                else:
+                    with open(temp_filename, 'w') as file:
+                        json.dump(dictionary, file, indent=2, cls=BilbyJsonEncoder)
+                if not overwrite:
+                    move_old_file(filename)
         except Exception as e:
             logger.error("\n\n Saving the data has failed with the "
                          "following message:\n {} \n\n".format(e))
+            raise
 
     @classmethod
     def read(cls, filename=None, outdir=None, label=None, gzip=False):
@@ -458,6 +463,8 @@ class Grid(object):
                 # set the likelihood
                 grid._ln_likelihood = dictionary['ln_likelihood']
                 grid.ln_noise_evidence = dictionary['ln_noise_evidence']
+                grid.label = dictionary['label']
+                grid.outdir = dictionary['outdir']
 
                 return grid
             except TypeError as e:
-- 
2.43.0


From 2ce39f0fe8b988cb2ef84a61d343bc4e779f5025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:11 +0000
Subject: [PATCH 56/80] fix: create the directory and use the documented name
 when pickling an interferometer

---
 bilby/gw/detector/interferometer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/detector/interferometer.py b/bilby/gw/detector/interferometer.py
index ac0c148..c235e45 100644
--- a/bilby/gw/detector/interferometer.py
+++ b/bilby/gw/detector/interferometer.py
@@ -898,7 +898,9 @@ class Interferometer(object):
         format="pickle", extra=".. versionadded:: 1.1.0"
     ))
     def to_pickle(self, outdir="outdir", label=None):
-        utils.check_directory_exists_and_if_not_mkdir('outdir')
+        utils.check_directory_exists_and_if_not_mkdir(outdir)
+        if label is None:
+            label = self.name
         filename = self._filename_from_outdir_label_extension(outdir, label, extension="pkl")
         safe_file_dump(self, filename, "dill")
 
-- 
2.43.0


From 67d634fffa51f1f7a41c389451372c418f840cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:22 +0000
Subject: [PATCH 57/80] fix: replace saved strain data, prior and sample files
 only with complete ones

---
 bilby/core/grid.py                  |  4 ++--
 bilby/core/prior/dict.py            |  5 +++--
 bilby/core/result.py                |  3 ++-
 bilby/gw/detector/interferometer.py | 26 ++++++++++++++------------
 4 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/bilby/core/grid.py b/bilby/core/grid.py
index 9220661..ea11dbd 100644
--- a/bilby/core/grid.py
+++ b/bilby/core/grid.py
@@ -6,9 +6,9 @@ import numpy as np
 from .prior import Prior, PriorDict
 from .utils import (
     logtrapzexp, check_directory_exists_and_if_not_mkdir, logger,
-    BilbyJsonEncoder, load_json, move_old_file
+    BilbyJsonEncoder, load_json, move_old_file,
+    safe_file_replacement
 )
-from .utils.io import safe_file_replacement
 from .result import FileMovedError
 
 
diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 86211e7..192d6cc 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -14,6 +14,7 @@ from ..utils import (
     check_directory_exists_and_if_not_mkdir,
     BilbyJsonEncoder,
     decode_bilby_json,
+    safe_file_replacement,
 )
 
 
@@ -125,7 +126,7 @@ class PriorDict(dict):
         prior_file = os.path.join(outdir, "{}.prior".format(label))
         logger.debug("Writing priors to {}".format(prior_file))
         joint_dists = []
-        with open(prior_file, "w") as outfile:
+        with safe_file_replacement(prior_file) as temp_file, open(temp_file, "w") as outfile:
             for key in self.keys():
                 if JointPrior in self[key].__class__.__mro__:
                     distname = "_".join(self[key].dist.names) + "_{}".format(
@@ -154,7 +155,7 @@ class PriorDict(dict):
         check_directory_exists_and_if_not_mkdir(outdir)
         prior_file = os.path.join(outdir, "{}_prior.json".format(label))
         logger.debug("Writing priors to {}".format(prior_file))
-        with open(prior_file, "w") as outfile:
+        with safe_file_replacement(prior_file) as temp_file, open(temp_file, "w") as outfile:
             json.dump(self._get_json_dict(), outfile, cls=BilbyJsonEncoder, indent=2)
 
     def from_file(self, filename):
diff --git a/bilby/core/result.py b/bilby/core/result.py
index 38d4381..e1c3665 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -897,7 +897,8 @@ class Result(object):
                 df.loc[:, key + "_angle"] = np.angle(complex_term)
 
         logger.info("Writing samples file to {}".format(filename))
-        df.to_csv(filename, index=False, header=True, sep=' ')
+        with utils.safe_file_replacement(filename) as temp_filename:
+            df.to_csv(temp_filename, index=False, header=True, sep=' ')
 
     def get_latex_labels_from_parameter_keys(self, keys):
         """ Returns a list of latex_labels corresponding to the given keys
diff --git a/bilby/gw/detector/interferometer.py b/bilby/gw/detector/interferometer.py
index c235e45..0d02af5 100644
--- a/bilby/gw/detector/interferometer.py
+++ b/bilby/gw/detector/interferometer.py
@@ -8,7 +8,7 @@ from bilby_cython.geometry import (
 )
 
 from ...core import utils
-from ...core.utils import docstring, logger, PropertyAccessor, safe_file_dump
+from ...core.utils import docstring, logger, PropertyAccessor, safe_file_dump, safe_file_replacement
 from .. import utils as gwutils
 from .calibration import Recalibrate
 from .geometry import InterferometerGeometry
@@ -748,17 +748,19 @@ class Interferometer(object):
         else:
             filename_asd = '{}/{}_{}_asd.dat'.format(outdir, self.name, label)
             filename_data = '{}/{}_{}_frequency_domain_data.dat'.format(outdir, self.name, label)
-        np.savetxt(filename_data,
-                   np.array(
-                       [self.strain_data.frequency_array,
-                        self.strain_data.frequency_domain_strain.real,
-                        self.strain_data.frequency_domain_strain.imag]).T,
-                   header='f real_h(f) imag_h(f)')
-        np.savetxt(filename_asd,
-                   np.array(
-                       [self.strain_data.frequency_array,
-                        self.amplitude_spectral_density_array]).T,
-                   header='f h(f)')
+        with safe_file_replacement(filename_data) as temp_filename:
+            np.savetxt(temp_filename,
+                       np.array(
+                           [self.strain_data.frequency_array,
+                            self.strain_data.frequency_domain_strain.real,
+                            self.strain_data.frequency_domain_strain.imag]).T,
+                       header='f real_h(f) imag_h(f)')
+        with safe_file_replacement(filename_asd) as temp_filename:
+            np.savetxt(temp_filename,
+                       np.array(
+                           [self.strain_data.frequency_array,
+                            self.amplitude_spectral_density_array]).T,
+                       header='f h(f)')
 
     def plot_data(self, signal=None, outdir='.', label=None):
         import matplotlib.pyplot as plt
-- 
2.43.0


From a8370b57fbc618e51cd0b438cc12e38cd92d8353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:35 +0000
Subject: [PATCH 58/80] fix: keep the bounds of joint priors that are read from
 a file

Files and JSON hold the bounds as a dictionary, which was ignored when the
distribution was constructed again.
---
 bilby/core/prior/joint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index f44a1f4..3e0d6f9 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -35,6 +35,9 @@ class BaseJointPriorDist(object):
         self.num_vars = len(self.names)
 
         # set the bounds for each parameter
+        if isinstance(bounds, dict):
+            # the form in which they are stored and written to files
+            bounds = [bounds[name] for name in self.names]
         if isinstance(bounds, list):
             if len(bounds) != len(self):
                 raise ValueError("Wrong number of parameter bounds")
@@ -53,7 +56,7 @@ class BaseJointPriorDist(object):
                     raise TypeError("Bound must be a list")
         else:
             bounds = [(-np.inf, np.inf) for _ in self.names]
-        self.bounds = {name: val for name, val in zip(self.names, bounds)}
+        self.bounds = {name: tuple(val) for name, val in zip(self.names, bounds)}
 
         self._current_sample = {}  # initialise empty sample
         self._uncorrelated = None
-- 
2.43.0


From 00adafabcec94c0c5b0fd6275f56c6bf405080fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:48 +0000
Subject: [PATCH 59/80] fix: store all entries of a Dirichlet prior set

Only the number of dimensions and the label were written to JSON, other
parameters and changed entries were lost.
---
 bilby/core/prior/dict.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 192d6cc..ef456d3 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -1088,10 +1088,7 @@ class DirichletPriorDict(ConditionalPriorDict):
         return new
 
     def _get_json_dict(self):
-        total_dict = dict()
-        total_dict["__prior_dict__"] = True
-        total_dict["__module__"] = self.__module__
-        total_dict["__name__"] = self.__class__.__name__
+        total_dict = super(DirichletPriorDict, self)._get_json_dict()
         total_dict["n_dim"] = self.n_dim
         total_dict["label"] = self.label
         return total_dict
@@ -1113,7 +1110,12 @@ class DirichletPriorDict(ConditionalPriorDict):
         for key in ["__module__", "__name__", "__prior_dict__"]:
             if key in prior_dict:
                 del prior_dict[key]
-        obj = cls(**prior_dict)
+        obj = cls(n_dim=prior_dict.pop("n_dim"), label=prior_dict.pop("label"))
+        if len(prior_dict) > 0:
+            # older files only hold the number of dimensions and the label
+            obj.from_dictionary(prior_dict)
+            for key in set(obj) - set(prior_dict):
+                del obj[key]
         return obj
 
 
-- 
2.43.0


From 76dc0cf9effffde0aa16e86b94fb9a72f682efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:01 +0000
Subject: [PATCH 60/80] fix: write arrays completely to prior files and read
 them back

A prior file with an interpolated prior could not be read, and would have held
rounded and abbreviated arrays.
---
 bilby/core/prior/base.py | 6 +++++-
 bilby/core/prior/dict.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bilby/core/prior/base.py b/bilby/core/prior/base.py
index 0dcac2c..949d0b1 100644
--- a/bilby/core/prior/base.py
+++ b/bilby/core/prior/base.py
@@ -391,7 +391,7 @@ class Prior(object):
         """
         Parse a string into the appropriate type for prior reading.
 
-        Four tests are applied in the following order:
+        These tests are applied in the following order:
 
         - If the string is 'None':
             `None` is returned.
@@ -399,6 +399,8 @@ class Prior(object):
             A stripped version of the string is returned, e.g., foo.
         - Else If the string contains ', e.g., 'foo':
             A stripped version of the string is returned, e.g., foo.
+        - Else If the string is the representation of an array:
+            The array is returned.
         - Else If the string contains an open parenthesis, (:
             The string is interpreted as a call to instantiate another prior
             class, Bilby will attempt to recursively construct that prior,
@@ -433,6 +435,8 @@ class Prior(object):
             val = val[2:-1]
         elif val.startswith("'") and val.endswith("'"):
             val = val.strip("'")
+        elif val.startswith("array("):
+            val = eval(val, dict(), dict(array=np.array, inf=np.inf, nan=np.nan))
         elif '(' in val and not val.startswith(("[", "{")):
             other_cls = val.split('(')[0]
             vals = '('.join(val.split('(')[1:])[:-1]
diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index ef456d3..9300792 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -126,7 +126,9 @@ class PriorDict(dict):
         prior_file = os.path.join(outdir, "{}.prior".format(label))
         logger.debug("Writing priors to {}".format(prior_file))
         joint_dists = []
-        with safe_file_replacement(prior_file) as temp_file, open(temp_file, "w") as outfile:
+        # arrays are written completely and in one line
+        with np.printoptions(threshold=np.inf, linewidth=np.inf, floatmode="unique"), \
+                safe_file_replacement(prior_file) as temp_file, open(temp_file, "w") as outfile:
             for key in self.keys():
                 if JointPrior in self[key].__class__.__mro__:
                     distname = "_".join(self[key].dist.names) + "_{}".format(
-- 
2.43.0


From 1076357b71e04c20aaac8a95ddf97488e4f05ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:14 +0000
Subject: [PATCH 61/80] fix: keep the spaces in labels and units of priors read
 from a file

---
 bilby/core/prior/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/base.py b/bilby/core/prior/base.py
index 949d0b1..e9823e1 100644
--- a/bilby/core/prior/base.py
+++ b/bilby/core/prior/base.py
@@ -338,7 +338,8 @@ class Prior(object):
     def _from_repr(cls, string):
         subclass_args = infer_args_from_method(cls.__init__)
 
-        string = string.replace(' ', '')
+        # remove spaces outside of quoted strings
+        string = re.sub(r"""('[^']*'|"[^"]*")| """, lambda match: match.group(1) or '', string)
         kwargs = cls._split_repr(string)
         for key in kwargs:
             val = kwargs[key]
-- 
2.43.0


From 2fa54946133f4ca4c62d0c3b4181c4a37fef310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:59 +0000
Subject: [PATCH 62/80] fix: read calibration prior files that are not part of
 the package

---
 bilby/gw/prior.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index f35c232..0e87d16 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -1114,7 +1114,8 @@ class CalibrationPriorDict(PriorDict):
             See superclass
         """
         if dictionary is None and filename is not None:
-            filename = os.path.join(DEFAULT_PRIOR_DIR, filename)
+            if not os.path.isfile(filename):
+                filename = os.path.join(DEFAULT_PRIOR_DIR, filename)
         super(CalibrationPriorDict, self).__init__(dictionary=dictionary, filename=filename)
         self.source = None
 
-- 
2.43.0


From 6f0305d92fdf35dc5d5d1e3afccae2112aeee1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:38 +0000
Subject: [PATCH 63/80] fix: never fail on an incomplete sampling time file

The file was overwritten in place, and a run that found it empty could not start.
---
 bilby/core/sampler/base_sampler.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index bddda2f..d365fe0 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -17,6 +17,7 @@ from ..utils import (
     check_directory_exists_and_if_not_mkdir,
     command_line_args,
     logger,
+    safe_file_replacement,
 )
 from ..utils.random import seed as set_seed
 
@@ -972,19 +973,25 @@ class _TemporaryFileSamplerMixin:
         self._temporary_outputfiles_basename = None
 
     def _check_and_load_sampling_time_file(self):
+        self.total_sampling_time = 0
         if os.path.exists(self.time_file_path):
-            with open(self.time_file_path, "r") as time_file:
-                self.total_sampling_time = float(time_file.readline())
-        else:
-            self.total_sampling_time = 0
+            try:
+                with open(self.time_file_path, "r") as time_file:
+                    self.total_sampling_time = float(time_file.readline())
+            except ValueError:
+                logger.warning(
+                    f"Sampling time file {self.time_file_path} could not be read, "
+                    "the previous sampling time is not included"
+                )
 
     def _calculate_and_save_sampling_time(self):
         current_time = time.time()
         new_sampling_time = current_time - self.start_time
         self.total_sampling_time += new_sampling_time
 
-        with open(self.time_file_path, "w") as time_file:
-            time_file.write(str(self.total_sampling_time))
+        with safe_file_replacement(self.time_file_path) as filename:
+            with open(filename, "w") as time_file:
+                time_file.write(str(self.total_sampling_time))
 
         self.start_time = current_time
 
-- 
2.43.0


From b6a2da750710a3c2406ba379b1c5dcdfe5aca85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:06 +0000
Subject: [PATCH 64/80] fix: stop samplers with output directories cleanly
 before and after sampling

A signal before the sampling started or after the temporary directory was moved
raised an exception as there was no start time, time file, or directory yet
or anymore. Failing to remove the temporary directory does not lose the result.
---
 bilby/core/sampler/base_sampler.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index d365fe0..61a32b4 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -971,6 +971,7 @@ class _TemporaryFileSamplerMixin:
         self.use_temporary_directory = temporary_directory and not using_mpi
         self._outputfiles_basename = None
         self._temporary_outputfiles_basename = None
+        self.start_time = np.nan
 
     def _check_and_load_sampling_time_file(self):
         self.total_sampling_time = 0
@@ -1028,18 +1029,27 @@ class _TemporaryFileSamplerMixin:
             )
 
     def write_current_state(self):
-        self._calculate_and_save_sampling_time()
+        # Before the sampling started there is nothing to save
+        if not np.isnan(self.start_time):
+            self._calculate_and_save_sampling_time()
         if self.use_temporary_directory:
             self._move_temporary_directory_to_proper_path()
 
     def _move_temporary_directory_to_proper_path(self):
         """
         Move the temporary back to the proper path
-
-        Anything in the proper path at this point is removed including links
         """
-        self._copy_temporary_directory_contents_to_proper_path()
-        shutil.rmtree(self.temporary_outputfiles_basename)
+        temporary_outputfiles_basename = self.temporary_outputfiles_basename
+        if temporary_outputfiles_basename is None:
+            # There is no temporary directory (anymore)
+            return
+        if not np.isnan(self.start_time):
+            self._copy_temporary_directory_contents_to_proper_path()
+        # A signal may arrive at any time, from here on it must not use the
+        # temporary directory
+        self.time_file_path = self.outputfiles_basename + "/sampling_time.dat"
+        self._temporary_outputfiles_basename = None
+        shutil.rmtree(temporary_outputfiles_basename, ignore_errors=True)
 
     def _copy_temporary_directory_contents_to_proper_path(self):
         """
-- 
2.43.0


From 740196435df11680319afaa052540cab4b505d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:06 +0000
Subject: [PATCH 65/80] fix: replace sampler output files only with complete
 copies

An interrupted or failed copy from the temporary directory left truncated files
in place of the ones to resume from.
---
 bilby/core/sampler/base_sampler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 61a32b4..914fd01 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -942,6 +942,13 @@ class MCMCSampler(Sampler):
             logger.info(f"Unable to calculate autocorr time: {e}")
 
 
+def _copy_file(source, destination):
+    """Copy a file such that an existing one is replaced completely or not at all"""
+    with safe_file_replacement(destination) as filename:
+        shutil.copy2(source, filename)
+    return destination
+
+
 class _TemporaryFileSamplerMixin:
     """
     A mixin class to handle storing sampler intermediate products in a temporary
@@ -1063,6 +1070,7 @@ class _TemporaryFileSamplerMixin:
         shutil.copytree(
             self.temporary_outputfiles_basename,
             outputfiles_basename_stripped,
+            copy_function=_copy_file,
             dirs_exist_ok=True,
         )
 
-- 
2.43.0


From eaa2dbc9b96c979bb0087ac5e3b4a699471e20c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:06 +0000
Subject: [PATCH 66/80] fix: copy the sampling time together with the multinest
 files it belongs to

---
 bilby/core/sampler/pymultinest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/pymultinest.py b/bilby/core/sampler/pymultinest.py
index 0a9bb0a..7e9523c 100644
--- a/bilby/core/sampler/pymultinest.py
+++ b/bilby/core/sampler/pymultinest.py
@@ -112,9 +112,9 @@ class Pymultinest(_TemporaryFileSamplerMixin, NestedSampler):
         NestedSampler._verify_kwargs_against_default_kwargs(self)
 
     def _dump_callback(self, *args, **kwargs):
+        self._calculate_and_save_sampling_time()
         if self.use_temporary_directory:
             self._copy_temporary_directory_contents_to_proper_path()
-        self._calculate_and_save_sampling_time()
 
     def _apply_multinest_boundaries(self):
         if self.kwargs["wrapped_params"] is None:
-- 
2.43.0


From ef6da1781171d4b58812391d58ddb6db6eafb10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:06 +0000
Subject: [PATCH 67/80] fix: resume ultranest runs if asked to

Both values of the resume argument were translated to overwrite.
---
 bilby/core/sampler/ultranest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/ultranest.py b/bilby/core/sampler/ultranest.py
index 6aacfa9..3de58dc 100644
--- a/bilby/core/sampler/ultranest.py
+++ b/bilby/core/sampler/ultranest.py
@@ -115,7 +115,7 @@ class Ultranest(_TemporaryFileSamplerMixin, NestedSampler):
             kwargs["show_status"] = kwargs.pop("verbose")
         resume = kwargs.get("resume", False)
         if resume is True:
-            kwargs["resume"] = "overwrite"
+            kwargs["resume"] = "resume"
         elif resume is False:
             kwargs["resume"] = "overwrite"
 
-- 
2.43.0


From 7b2bc2e9f26a4761b37d2f860220dba478acf14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:06 +0000
Subject: [PATCH 68/80] fix: keep the files of external samplers if sampling
 fails

An exception in the likelihood left all files in a temporary directory that
later runs do not know about.
---
 bilby/core/sampler/base_sampler.py | 10 ++++++++++
 bilby/core/sampler/dnest4.py       | 15 ++++++++-------
 bilby/core/sampler/pymultinest.py  | 13 +++++++------
 bilby/core/sampler/ultranest.py    |  3 ++-
 4 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 914fd01..228ae27 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -5,6 +5,7 @@ import signal
 import sys
 import tempfile
 import time
+from contextlib import contextmanager
 
 import attr
 import numpy as np
@@ -1042,6 +1043,15 @@ class _TemporaryFileSamplerMixin:
         if self.use_temporary_directory:
             self._move_temporary_directory_to_proper_path()
 
+    @contextmanager
+    def _save_state_on_failure(self):
+        """Keep the files written so far if the sampling ends with an exception"""
+        try:
+            yield
+        except Exception:
+            self.write_current_state()
+            raise
+
     def _move_temporary_directory_to_proper_path(self):
         """
         Move the temporary back to the proper path
diff --git a/bilby/core/sampler/dnest4.py b/bilby/core/sampler/dnest4.py
index 87717f6..b86425e 100644
--- a/bilby/core/sampler/dnest4.py
+++ b/bilby/core/sampler/dnest4.py
@@ -214,14 +214,15 @@ class DNest4(_TemporaryFileSamplerMixin, NestedSampler):
         self.start_time = time.time()
 
         self.sampler = dnest4.DNest4Sampler(self._dnest4_model, backend=backend)
-        out = self.sampler.sample(
-            self.max_num_levels, num_particles=self.num_particles, **self.dnest4_kwargs
-        )
+        with self._save_state_on_failure():
+            out = self.sampler.sample(
+                self.max_num_levels, num_particles=self.num_particles, **self.dnest4_kwargs
+            )
 
-        for i, sample in enumerate(out):
-            if self._verbose and ((i + 1) % 100 == 0):
-                stats = self.sampler.postprocess()
-                logger.info(f"Iteration: {i + 1} log(Z): {stats['log_Z']}")
+            for i, sample in enumerate(out):
+                if self._verbose and ((i + 1) % 100 == 0):
+                    stats = self.sampler.postprocess()
+                    logger.info(f"Iteration: {i + 1} log(Z): {stats['log_Z']}")
 
         self._calculate_and_save_sampling_time()
         self._clean_up_run_directory()
diff --git a/bilby/core/sampler/pymultinest.py b/bilby/core/sampler/pymultinest.py
index 7e9523c..7e2330c 100644
--- a/bilby/core/sampler/pymultinest.py
+++ b/bilby/core/sampler/pymultinest.py
@@ -141,12 +141,13 @@ class Pymultinest(_TemporaryFileSamplerMixin, NestedSampler):
         pm_run.interrupt_handler = self.write_current_state_and_exit
 
         self.start_time = time.time()
-        out = pymultinest.solve(
-            LogLikelihood=self.log_likelihood,
-            Prior=self.prior_transform,
-            n_dims=self.ndim,
-            **self.kwargs
-        )
+        with self._save_state_on_failure():
+            out = pymultinest.solve(
+                LogLikelihood=self.log_likelihood,
+                Prior=self.prior_transform,
+                n_dims=self.ndim,
+                **self.kwargs
+            )
         self._calculate_and_save_sampling_time()
 
         self._clean_up_run_directory()
diff --git a/bilby/core/sampler/ultranest.py b/bilby/core/sampler/ultranest.py
index 3de58dc..0e75d33 100644
--- a/bilby/core/sampler/ultranest.py
+++ b/bilby/core/sampler/ultranest.py
@@ -252,7 +252,8 @@ class Ultranest(_TemporaryFileSamplerMixin, NestedSampler):
             self._viz_callback_counter = 1
 
         self.start_time = time.time()
-        results = sampler.run(**self.sampler_function_kwargs)
+        with self._save_state_on_failure():
+            results = sampler.run(**self.sampler_function_kwargs)
         self._calculate_and_save_sampling_time()
 
         self._clean_up_run_directory()
-- 
2.43.0


From 17a131f0486e8acb1f30652692abf2c690a4b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:27 +0000
Subject: [PATCH 69/80] fix: remove files that the sampler removed in its
 temporary directory

Files of an earlier run that the sampler deleted or renamed stayed in the output
directory next to those of the new one.
---
 bilby/core/sampler/base_sampler.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 228ae27..171d5bb 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -950,6 +950,15 @@ def _copy_file(source, destination):
     return destination
 
 
+def _list_files(directory):
+    """The set of all files below a directory, relative to it"""
+    return {
+        os.path.relpath(os.path.join(path, filename), directory)
+        for path, _, filenames in os.walk(directory)
+        for filename in filenames
+    }
+
+
 class _TemporaryFileSamplerMixin:
     """
     A mixin class to handle storing sampler intermediate products in a temporary
@@ -979,6 +988,7 @@ class _TemporaryFileSamplerMixin:
         self.use_temporary_directory = temporary_directory and not using_mpi
         self._outputfiles_basename = None
         self._temporary_outputfiles_basename = None
+        self._copied_files = set()
         self.start_time = np.nan
 
     def _check_and_load_sampling_time_file(self):
@@ -1077,12 +1087,20 @@ class _TemporaryFileSamplerMixin:
             f"Overwriting {self.outputfiles_basename} with {self.temporary_outputfiles_basename}"
         )
         outputfiles_basename_stripped = self.outputfiles_basename.rstrip("/")
+        remaining = _list_files(self.temporary_outputfiles_basename)
+        self._copied_files |= remaining
         shutil.copytree(
             self.temporary_outputfiles_basename,
             outputfiles_basename_stripped,
             copy_function=_copy_file,
             dirs_exist_ok=True,
         )
+        # Files that the sampler removed are removed as well
+        for filename in self._copied_files - remaining:
+            path = os.path.join(self.outputfiles_basename, filename)
+            if os.path.lexists(path):
+                os.remove(path)
+        self._copied_files = remaining
 
     def _setup_run_directory(self):
         """
@@ -1102,6 +1120,7 @@ class _TemporaryFileSamplerMixin:
                     dirs_exist_ok=True,
                 )
             check_directory_exists_and_if_not_mkdir(temporary_outputfiles_basename)
+            self._copied_files = _list_files(self.temporary_outputfiles_basename)
 
             self.kwargs["outputfiles_basename"] = self.temporary_outputfiles_basename
             logger.info(f"Using temporary file {temporary_outputfiles_basename}")
-- 
2.43.0


From ab30d53e822ffde847b0a3d698fc749cd001f3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 70/80] fix: use the output directory that was asked for with
 external samplers

---
 bilby/core/sampler/base_sampler.py | 8 +++++++-
 bilby/core/sampler/dnest4.py       | 2 +-
 bilby/core/sampler/pymultinest.py  | 2 +-
 bilby/core/sampler/ultranest.py    | 2 +-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 171d5bb..947c4c3 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -972,6 +972,8 @@ class _TemporaryFileSamplerMixin:
     short_name = ""
 
     def __init__(self, temporary_directory, **kwargs):
+        # The output directory is set while the keyword arguments are verified
+        self._outputfiles_basename = None
         super(_TemporaryFileSamplerMixin, self).__init__(**kwargs)
         try:
             from mpi4py import MPI
@@ -986,7 +988,6 @@ class _TemporaryFileSamplerMixin:
                 "will run in original directory"
             )
         self.use_temporary_directory = temporary_directory and not using_mpi
-        self._outputfiles_basename = None
         self._temporary_outputfiles_basename = None
         self._copied_files = set()
         self.start_time = np.nan
@@ -1032,6 +1033,11 @@ class _TemporaryFileSamplerMixin:
         check_directory_exists_and_if_not_mkdir(self.outdir)
         self._outputfiles_basename = outputfiles_basename
 
+    def _set_outputfiles_basename(self, outputfiles_basename=None):
+        """Set the output directory unless there is one and no other is asked for"""
+        if outputfiles_basename is not None or self.outputfiles_basename is None:
+            self.outputfiles_basename = outputfiles_basename
+
     @property
     def temporary_outputfiles_basename(self):
         return self._temporary_outputfiles_basename
diff --git a/bilby/core/sampler/dnest4.py b/bilby/core/sampler/dnest4.py
index b86425e..aa59c8f 100644
--- a/bilby/core/sampler/dnest4.py
+++ b/bilby/core/sampler/dnest4.py
@@ -249,5 +249,5 @@ class DNest4(_TemporaryFileSamplerMixin, NestedSampler):
                     kwargs["num_steps"] = kwargs.pop(equiv)
 
     def _verify_kwargs_against_default_kwargs(self):
-        self.outputfiles_basename = self.kwargs.pop("outputfiles_basename", None)
+        self._set_outputfiles_basename(self.kwargs.pop("outputfiles_basename", None))
         super(DNest4, self)._verify_kwargs_against_default_kwargs()
diff --git a/bilby/core/sampler/pymultinest.py b/bilby/core/sampler/pymultinest.py
index 7e2330c..5f8fa15 100644
--- a/bilby/core/sampler/pymultinest.py
+++ b/bilby/core/sampler/pymultinest.py
@@ -102,7 +102,7 @@ class Pymultinest(_TemporaryFileSamplerMixin, NestedSampler):
     def _verify_kwargs_against_default_kwargs(self):
         """Check the kwargs"""
 
-        self.outputfiles_basename = self.kwargs.pop("outputfiles_basename", None)
+        self._set_outputfiles_basename(self.kwargs.pop("outputfiles_basename", None))
 
         # for PyMultiNest >=2.9 the n_params kwarg cannot be None
         if self.kwargs["n_params"] is None:
diff --git a/bilby/core/sampler/ultranest.py b/bilby/core/sampler/ultranest.py
index 0e75d33..e78409d 100644
--- a/bilby/core/sampler/ultranest.py
+++ b/bilby/core/sampler/ultranest.py
@@ -122,7 +122,7 @@ class Ultranest(_TemporaryFileSamplerMixin, NestedSampler):
     def _verify_kwargs_against_default_kwargs(self):
         """Check the kwargs"""
 
-        self.outputfiles_basename = self.kwargs.pop("log_dir", None)
+        self._set_outputfiles_basename(self.kwargs.pop("log_dir", None))
         if self.kwargs["viz_callback"] is None:
             self.kwargs["viz_callback"] = self._viz_callback
 
-- 
2.43.0


From b5c5d62b55dd0ba016693072fa4ead70793b8c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:24 +0000
Subject: [PATCH 71/80] fix: create the temporary directory of external
 samplers only once

---
 bilby/core/sampler/base_sampler.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 947c4c3..9577a27 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -1049,7 +1049,9 @@ class _TemporaryFileSamplerMixin:
         self._temporary_outputfiles_basename = temporary_outputfiles_basename
         if os.path.exists(self.outputfiles_basename):
             shutil.copytree(
-                self.outputfiles_basename, self.temporary_outputfiles_basename
+                self.outputfiles_basename,
+                self.temporary_outputfiles_basename,
+                dirs_exist_ok=True,
             )
 
     def write_current_state(self):
@@ -1116,20 +1118,12 @@ class _TemporaryFileSamplerMixin:
         """
         check_directory_exists_and_if_not_mkdir(self.outputfiles_basename)
         if self.use_temporary_directory:
-            temporary_outputfiles_basename = tempfile.TemporaryDirectory().name
-            self.temporary_outputfiles_basename = temporary_outputfiles_basename
-
-            if os.path.exists(self.outputfiles_basename):
-                shutil.copytree(
-                    self.outputfiles_basename,
-                    self.temporary_outputfiles_basename,
-                    dirs_exist_ok=True,
-                )
-            check_directory_exists_and_if_not_mkdir(temporary_outputfiles_basename)
+            # This copies the content of the output directory
+            self.temporary_outputfiles_basename = tempfile.mkdtemp()
             self._copied_files = _list_files(self.temporary_outputfiles_basename)
 
             self.kwargs["outputfiles_basename"] = self.temporary_outputfiles_basename
-            logger.info(f"Using temporary file {temporary_outputfiles_basename}")
+            logger.info(f"Using temporary file {self.temporary_outputfiles_basename}")
         else:
             self.kwargs["outputfiles_basename"] = self.outputfiles_basename
             logger.info(f"Using output file {self.outputfiles_basename}")
-- 
2.43.0


From 9995d8cf2fb284e6ce6619c6ffda82481c73413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:58 +0000
Subject: [PATCH 72/80] fix: count the sampling time once if it can not be
 saved

---
 bilby/core/sampler/base_sampler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 9577a27..8f28713 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -1006,15 +1006,17 @@ class _TemporaryFileSamplerMixin:
 
     def _calculate_and_save_sampling_time(self):
         current_time = time.time()
-        new_sampling_time = current_time - self.start_time
-        self.total_sampling_time += new_sampling_time
+        # Both at once, writing may fail or be interrupted by a signal which
+        # leads to another call
+        self.total_sampling_time, self.start_time = (
+            self.total_sampling_time + current_time - self.start_time,
+            current_time,
+        )
 
         with safe_file_replacement(self.time_file_path) as filename:
             with open(filename, "w") as time_file:
                 time_file.write(str(self.total_sampling_time))
 
-        self.start_time = current_time
-
     def _clean_up_run_directory(self):
         if self.use_temporary_directory:
             self._move_temporary_directory_to_proper_path()
-- 
2.43.0


From 4cba2eabbefc286ee42ae7f5559a1d01bcc596cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:03 +0000
Subject: [PATCH 73/80] fix: draw from the density-estimate proposals with
 bilby's random generator

KDEProposal and GMMProposal drew from NumPy's global generator, so seeded bilby-mcmc runs were not repeatable and
all workers of a pool replayed the same stream.
---
 bilby/bilby_mcmc/proposals.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bilby/bilby_mcmc/proposals.py b/bilby/bilby_mcmc/proposals.py
index 6100d75..a39071f 100644
--- a/bilby/bilby_mcmc/proposals.py
+++ b/bilby/bilby_mcmc/proposals.py
@@ -541,7 +541,7 @@ class KDEProposal(DensityEstimateProposal):
         return self.density.logpdf(point)[0]
 
     def _sample(self, nsamples=None):
-        return np.atleast_1d(np.squeeze(self.density.resample(nsamples)))
+        return np.atleast_1d(np.squeeze(self.density.resample(nsamples, seed=random.rng)))
 
 
 class GMMProposal(DensityEstimateProposal):
@@ -551,7 +551,9 @@ class GMMProposal(DensityEstimateProposal):
     def _fit(self, dataset):
         from sklearn.mixture import GaussianMixture
 
-        density = GaussianMixture(n_components=10)
+        density = GaussianMixture(
+            n_components=10, random_state=self._get_random_state()
+        )
         density.fit(dataset.T)
         return density
 
@@ -559,8 +561,13 @@ class GMMProposal(DensityEstimateProposal):
         return np.squeeze(self.density.score_samples(np.atleast_2d(point)))
 
     def _sample(self, nsamples=None):
+        self.density.set_params(random_state=self._get_random_state())
         return np.squeeze(self.density.sample(n_samples=nsamples)[0])
 
+    @staticmethod
+    def _get_random_state():
+        return int(random.rng.integers(2**32 - 1))
+
     @staticmethod
     def check_dependencies(warn=True):
         if importlib.util.find_spec("sklearn") is None:
-- 
2.43.0


From a69fe996a4f9a4b1f915984cb5214f632af1aede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:19 +0000
Subject: [PATCH 74/80] fix: resample posteriors with bilby's random generator

Shuffling combined results and converting to a prior flat in component masses drew from NumPy's global generator,
which bilby.core.utils.random.seed does not seed.
---
 bilby/core/result.py | 4 +++-
 bilby/gw/prior.py    | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index e1c3665..df9927b 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1889,7 +1889,9 @@ class ResultList(list):
         combined_posteriors = pd.concat(posteriors, ignore_index=True)
 
         if shuffle:
-            result.posterior = combined_posteriors.sample(len(combined_posteriors))
+            result.posterior = combined_posteriors.sample(
+                len(combined_posteriors), random_state=random.rng
+            )
         else:
             result.posterior = combined_posteriors
 
diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index 0e87d16..aa9c266 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -75,7 +75,7 @@ def convert_to_flat_in_component_mass_prior(result, fraction=0.25):
                                                        prior_names=['chirp_mass', 'mass_ratio', 'mass_1', 'mass_2']))
     jacobian = posterior["mass_1"] ** 2 / posterior["chirp_mass"]
     weights = jacobian * weights
-    result.posterior = posterior.sample(frac=fraction, weights=weights)
+    result.posterior = posterior.sample(frac=fraction, weights=weights, random_state=random.rng)
 
     logger.info("Resampling posterior to flat-in-component mass")
     effective_sample_size = sum(weights)**2 / sum(weights**2)
@@ -87,7 +87,9 @@ def convert_to_flat_in_component_mass_prior(result, fraction=0.25):
             "biased results"
             .format(n_posterior, fraction, effective_sample_size / n_posterior)
         )
-    result.posterior = posterior.sample(frac=fraction, weights=weights, replace=True)
+    result.posterior = posterior.sample(
+        frac=fraction, weights=weights, replace=True, random_state=random.rng
+    )
     result.meta_data["reweighted_to_flat_in_component_mass"] = True
     return result
 
-- 
2.43.0


From ce7fefb64c2884097634aeb52c67b77ad0dacacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:46 +0000
Subject: [PATCH 75/80] fix: seed ptemcee from bilby's random generator

The sampler was left to seed itself from the operating system, so no seed made a run repeatable.
---
 bilby/core/sampler/ptemcee.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/bilby/core/sampler/ptemcee.py b/bilby/core/sampler/ptemcee.py
index 58b6638..1a64a21 100644
--- a/bilby/core/sampler/ptemcee.py
+++ b/bilby/core/sampler/ptemcee.py
@@ -8,7 +8,12 @@ from collections import namedtuple
 import numpy as np
 import pandas as pd
 
-from ..utils import check_directory_exists_and_if_not_mkdir, logger, safe_file_dump
+from ..utils import (
+    check_directory_exists_and_if_not_mkdir,
+    logger,
+    random,
+    safe_file_dump,
+)
 from .base_sampler import (
     MCMCSampler,
     SamplerError,
@@ -483,12 +488,17 @@ class Ptemcee(MCMCSampler):
 
         else:
             # Initialize the PTSampler
+            init_kwargs = dict(self.sampler_init_kwargs)
+            if init_kwargs.get("random", None) is None:
+                init_kwargs["random"] = np.random.RandomState(
+                    random.rng.integers(2**32 - 1)
+                )
             if self.threads == 1:
                 self.sampler = ptemcee.Sampler(
                     dim=self.ndim,
                     logl=self.log_likelihood,
                     logp=self.log_prior,
-                    **self.sampler_init_kwargs,
+                    **init_kwargs,
                 )
             else:
                 self.sampler = ptemcee.Sampler(
@@ -496,7 +506,7 @@ class Ptemcee(MCMCSampler):
                     logl=do_nothing_function,
                     logp=do_nothing_function,
                     threads=self.threads,
-                    **self.sampler_init_kwargs,
+                    **init_kwargs,
                 )
 
             self.sampler._likeprior = LikePriorEvaluator()
-- 
2.43.0


From 6b01c88cf00cfde6b88edbb9c42638e3508ebb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:46 +0000
Subject: [PATCH 76/80] fix: seed dynesty from bilby's random generator

Without seed or rstate, and when resampling in place, dynesty seeded itself from the operating system, so
bilby.core.utils.random.seed did not make a run repeatable.
---
 bilby/core/sampler/dynesty.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index b1f66b7..a2988c7 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -13,6 +13,7 @@ from ..utils import (
     check_directory_exists_and_if_not_mkdir,
     latex_plot_format,
     logger,
+    random,
     safe_file_dump,
 )
 from .base_sampler import NestedSampler, Sampler, _SamplingContainer, signal_wrapper
@@ -550,6 +551,10 @@ class Dynesty(NestedSampler):
                     self.nlive
                 )
                 self.kwargs["live_points"] = (*self.kwargs["live_points"], None)
+            if self.kwargs["rstate"] is None:
+                self.kwargs["rstate"] = np.random.default_rng(
+                    random.generate_seeds(1)[0]
+                )
             self.sampler = self.sampler_init(
                 loglikelihood=_log_likelihood_wrapper,
                 prior_transform=_prior_transform_wrapper,
@@ -633,7 +638,9 @@ class Dynesty(NestedSampler):
                 f"Rejection sampling nested samples to obtain {sum(keep)} posterior samples"
             )
         else:
-            self.result.samples = dynesty.utils.resample_equal(out.samples, weights)
+            self.result.samples = dynesty.utils.resample_equal(
+                out.samples, weights, rstate=rng
+            )
             self.result.log_likelihood_evaluations = self.reorder_loglikelihoods(
                 unsorted_loglikelihoods=out.logl,
                 unsorted_samples=out.samples,
-- 
2.43.0


From fe5e33c49cc4551bc2136920abd513df7ff7b582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:56 +0000
Subject: [PATCH 77/80] fix: evaluating a prior density does not draw from the
 shared random generator

The normalisation of a constrained prior is estimated from random draws the first time a density is asked for: every
worker process found another value, and the draws of everything that followed depended on whether the estimate was
already cached in the process at hand.
---
 bilby/core/prior/dict.py   | 12 ++++++++----
 bilby/core/utils/random.py | 19 +++++++++++++++++++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 9300792..c420ae5 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -15,6 +15,7 @@ from ..utils import (
     BilbyJsonEncoder,
     decode_bilby_json,
     safe_file_replacement,
+    random,
 )
 
 
@@ -524,10 +525,13 @@ class PriorDict(dict):
         if keys in self._cached_normalizations.keys():
             return self._cached_normalizations[keys]
         else:
-            factor_estimates = [
-                self._estimate_normalization(keys, min_accept, sampling_chunk)
-                for _ in range(nrepeats)
-            ]
+            # Evaluating a density must neither advance the random generator
+            # nor depend on it: all processes have to find the same value
+            with random.temporary_seed(0):
+                factor_estimates = [
+                    self._estimate_normalization(keys, min_accept, sampling_chunk)
+                    for _ in range(nrepeats)
+                ]
             factor = np.mean(factor_estimates)
             if np.std(factor_estimates) > 0:
                 decimals = int(-np.floor(np.log10(3 * np.std(factor_estimates))))
diff --git a/bilby/core/utils/random.py b/bilby/core/utils/random.py
index dbee5b0..b069858 100644
--- a/bilby/core/utils/random.py
+++ b/bilby/core/utils/random.py
@@ -1,3 +1,5 @@
+from contextlib import contextmanager
+
 from numpy.random import default_rng, SeedSequence
 
 
@@ -10,6 +12,23 @@ class Generator:
     rng = default_rng()
 
 
+@contextmanager
+def temporary_seed(seed):
+    """Use a freshly seeded generator and restore the current one afterwards
+
+    Parameters
+    ----------
+    seed: int
+        The seed of the temporary generator
+    """
+    rng = Generator.rng
+    Generator.rng = default_rng(seed)
+    try:
+        yield
+    finally:
+        Generator.rng = rng
+
+
 def seed(seed):
     Generator.rng = default_rng(seed)
 
-- 
2.43.0


From 2408911cf5f3276bfde779b7995e01bdd38d96a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:00 +0000
Subject: [PATCH 78/80] fix: measure sampling time with the monotonic clock

A jump of the wall clock made sampling times negative or far too long,
delayed bilby-mcmc's search for convergence and, by way of the measured
time of a likelihood call, changed how often dynesty looks whether a
checkpoint is due.
---
 bilby/bilby_mcmc/sampler.py        | 14 +++++++-------
 bilby/core/sampler/__init__.py     |  7 ++++---
 bilby/core/sampler/base_sampler.py |  7 +++----
 bilby/core/sampler/dnest4.py       |  2 +-
 bilby/core/sampler/dynesty.py      | 16 ++++++++--------
 bilby/core/sampler/ptemcee.py      |  6 +++---
 bilby/core/sampler/pymultinest.py  |  2 +-
 bilby/core/sampler/ultranest.py    |  2 +-
 8 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index c56ebd8..83e5d93 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -247,7 +247,7 @@ class Bilby_MCMC(MCMCSampler):
     def run_sampler(self):
         self._setup_pool()
         self.setup_chain_set()
-        self.start_time = datetime.datetime.now()
+        self.start_time = time.monotonic()
         self.draw()
         self._close_pool()
         self.check_point(ignore_time=True)
@@ -334,18 +334,18 @@ class Bilby_MCMC(MCMCSampler):
         logger.info(f"Print update every printdt={self.printdt}s")
 
         while True:
-            t0 = datetime.datetime.now()
+            t0 = time.monotonic()
             self.ptsampler.step_all_chains()
-            dt = (datetime.datetime.now() - t0).total_seconds()
+            dt = time.monotonic() - t0
             self.ptsampler.sampling_time += dt
             self._time_since_last_print += dt
             self._steps_since_last_print += self.ptsampler.L1steps
 
             if self._time_since_last_print > self.printdt:
-                tp0 = datetime.datetime.now()
+                tp0 = time.monotonic()
                 self.print_progress()
-                tp = datetime.datetime.now()
-                ppt_frac = (tp - tp0).total_seconds() / self._time_since_last_print
+                tp = time.monotonic()
+                ppt_frac = (tp - tp0) / self._time_since_last_print
                 if ppt_frac > 0.01:
                     logger.warning(
                         f"Non-negligible print progress time (ppt_frac={ppt_frac:0.2f})"
@@ -362,7 +362,7 @@ class Bilby_MCMC(MCMCSampler):
                     break
 
     def check_point(self, ignore_time=False):
-        tS = (datetime.datetime.now() - self.start_time).total_seconds()
+        tS = time.monotonic() - self.start_time
         if os.path.isfile(self.resume_file):
             tR = time.time() - os.path.getmtime(self.resume_file)
         else:
diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index 254d7b4..df92a38 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -1,6 +1,7 @@
 import datetime
 import inspect
 import sys
+import time
 
 from ..prior import DeltaFunction, PriorDict
 from ..utils import (
@@ -298,16 +299,16 @@ def run_sampler(
         result = sampler.cached_result
     else:
         # Run the sampler
-        start_time = datetime.datetime.now()
+        start_time = time.monotonic()
         if command_line_args.bilby_test_mode:
             result = sampler._run_test()
         else:
             result = sampler.run_sampler()
-        end_time = datetime.datetime.now()
+        end_time = time.monotonic()
 
         # Some samplers calculate the sampling time internally
         if result.sampling_time is None:
-            result.sampling_time = end_time - start_time
+            result.sampling_time = datetime.timedelta(seconds=end_time - start_time)
         elif isinstance(result.sampling_time, (float, int)):
             result.sampling_time = datetime.timedelta(seconds=result.sampling_time)
 
diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 8f28713..a9eb22b 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -1,4 +1,3 @@
-import datetime
 import os
 import shutil
 import signal
@@ -454,13 +453,13 @@ class Sampler(object):
             The time (in s) it took for one likelihood evaluation
         """
 
-        t1 = datetime.datetime.now()
+        t1 = time.monotonic()
         for _ in range(n_evaluations):
             theta = self.priors.sample_subset_constrained_as_array(
                 self._search_parameter_keys, size=1
             )[:, 0]
             self.log_likelihood(theta)
-        total_time = (datetime.datetime.now() - t1).total_seconds()
+        total_time = time.monotonic() - t1
         log_likelihood_eval_time = total_time / n_evaluations
 
         if log_likelihood_eval_time == 0:
@@ -1005,7 +1004,7 @@ class _TemporaryFileSamplerMixin:
                 )
 
     def _calculate_and_save_sampling_time(self):
-        current_time = time.time()
+        current_time = time.monotonic()
         # Both at once, writing may fail or be interrupted by a signal which
         # leads to another call
         self.total_sampling_time, self.start_time = (
diff --git a/bilby/core/sampler/dnest4.py b/bilby/core/sampler/dnest4.py
index aa59c8f..3c4cdb7 100644
--- a/bilby/core/sampler/dnest4.py
+++ b/bilby/core/sampler/dnest4.py
@@ -211,7 +211,7 @@ class DNest4(_TemporaryFileSamplerMixin, NestedSampler):
         self._verify_kwargs_against_default_kwargs()
         self._setup_run_directory()
         self._check_and_load_sampling_time_file()
-        self.start_time = time.time()
+        self.start_time = time.monotonic()
 
         self.sampler = dnest4.DNest4Sampler(self._dnest4_model, backend=backend)
         with self._save_state_on_failure():
diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index a2988c7..bf66dff 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -350,7 +350,9 @@ class Dynesty(NestedSampler):
                 self._last_print_time = _time
 
                 # Add time in current run to overall sampling time
-                total_time = self.sampling_time + _time - self.start_time
+                total_time = self.sampling_time + datetime.timedelta(
+                    seconds=time.monotonic() - self.start_time
+                )
 
                 # Remove fractional seconds
                 total_time_str = str(total_time).split(".")[0]
@@ -566,7 +568,7 @@ class Dynesty(NestedSampler):
 
             self.pbar = tqdm(file=sys.stdout, initial=self.sampler.it)
 
-        self.start_time = datetime.datetime.now()
+        self.start_time = time.monotonic()
         if self.check_point:
             out = self._run_external_sampler_with_checkpointing()
         else:
@@ -663,8 +665,8 @@ class Dynesty(NestedSampler):
         self.kwargs["rstate"] = None
 
     def _update_sampling_time(self):
-        end_time = datetime.datetime.now()
-        self.sampling_time += end_time - self.start_time
+        end_time = time.monotonic()
+        self.sampling_time += datetime.timedelta(seconds=end_time - self.start_time)
         self.start_time = end_time
 
     def _run_external_sampler_without_checkpointing(self):
@@ -708,9 +710,7 @@ class Dynesty(NestedSampler):
             if os.path.isfile(self.resume_file):
                 last_checkpoint_s = time.time() - os.path.getmtime(self.resume_file)
             else:
-                last_checkpoint_s = (
-                    datetime.datetime.now() - self.start_time
-                ).total_seconds()
+                last_checkpoint_s = time.monotonic() - self.start_time
             if last_checkpoint_s > self.check_point_delta_t:
                 self.write_current_state()
                 self.plot_current_state()
@@ -789,7 +789,7 @@ class Dynesty(NestedSampler):
                     "sampling_time", self.sampling_time
                 )
                 # the time since the state was written is not sampling time
-                self.start_time = datetime.datetime.now()
+                self.start_time = time.monotonic()
                 self.sampler = sampler
                 self.sampler.queue_size = self.kwargs["queue_size"]
                 self.sampler.pool = self.pool
diff --git a/bilby/core/sampler/ptemcee.py b/bilby/core/sampler/ptemcee.py
index 1a64a21..83c83e8 100644
--- a/bilby/core/sampler/ptemcee.py
+++ b/bilby/core/sampler/ptemcee.py
@@ -559,7 +559,7 @@ class Ptemcee(MCMCSampler):
         self._setup_pool()
         sampler = self.setup_sampler()
 
-        t0 = datetime.datetime.now()
+        t0 = time.monotonic()
         logger.info("Starting to sample")
 
         while True:
@@ -603,8 +603,8 @@ class Ptemcee(MCMCSampler):
             # so mean_log_posterior is shaped (nwalkers, iterations)
 
             # Calculate time per iteration
-            self.time_per_check.append((datetime.datetime.now() - t0).total_seconds())
-            t0 = datetime.datetime.now()
+            self.time_per_check.append(time.monotonic() - t0)
+            t0 = time.monotonic()
 
             self.iteration += 1
 
diff --git a/bilby/core/sampler/pymultinest.py b/bilby/core/sampler/pymultinest.py
index 5f8fa15..ca6d7bb 100644
--- a/bilby/core/sampler/pymultinest.py
+++ b/bilby/core/sampler/pymultinest.py
@@ -140,7 +140,7 @@ class Pymultinest(_TemporaryFileSamplerMixin, NestedSampler):
         pm_run = importlib.import_module("pymultinest.run")
         pm_run.interrupt_handler = self.write_current_state_and_exit
 
-        self.start_time = time.time()
+        self.start_time = time.monotonic()
         with self._save_state_on_failure():
             out = pymultinest.solve(
                 LogLikelihood=self.log_likelihood,
diff --git a/bilby/core/sampler/ultranest.py b/bilby/core/sampler/ultranest.py
index e78409d..8557327 100644
--- a/bilby/core/sampler/ultranest.py
+++ b/bilby/core/sampler/ultranest.py
@@ -251,7 +251,7 @@ class Ultranest(_TemporaryFileSamplerMixin, NestedSampler):
         if self.use_temporary_directory:
             self._viz_callback_counter = 1
 
-        self.start_time = time.time()
+        self.start_time = time.monotonic()
         with self._save_state_on_failure():
             results = sampler.run(**self.sampler_function_kwargs)
         self._calculate_and_save_sampling_time()
-- 
2.43.0


From 7c5f92dd59b8745dd348d588ec5e043f56102c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:56 +0000
Subject: [PATCH 79/80] fix: keep the cadence of checkpoints when the clock is
 set back

The age of the resume file is negative after the clock was set back, and
no further checkpoint was written until the clock caught up.
---
 bilby/bilby_mcmc/sampler.py   | 12 +++++-------
 bilby/core/sampler/dynesty.py |  8 +++++++-
 bilby/core/sampler/ptemcee.py |  6 ++++++
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 83e5d93..13b87b9 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -247,7 +247,7 @@ class Bilby_MCMC(MCMCSampler):
     def run_sampler(self):
         self._setup_pool()
         self.setup_chain_set()
-        self.start_time = time.monotonic()
+        self._last_checkpoint_time = time.monotonic()
         self.draw()
         self._close_pool()
         self.check_point(ignore_time=True)
@@ -362,13 +362,10 @@ class Bilby_MCMC(MCMCSampler):
                     break
 
     def check_point(self, ignore_time=False):
-        tS = time.monotonic() - self.start_time
-        if os.path.isfile(self.resume_file):
-            tR = time.time() - os.path.getmtime(self.resume_file)
-        else:
-            tR = np.inf
+        # The time since the file was written is wrong if the clock was set back
+        last_checkpoint_s = time.monotonic() - self._last_checkpoint_time
 
-        if ignore_time or np.min([tS, tR]) > self.check_point_delta_t:
+        if ignore_time or last_checkpoint_s > self.check_point_delta_t:
             logger.info("Checkpoint start")
             self.write_current_state()
             self.print_long_progress()
@@ -441,6 +438,7 @@ class Bilby_MCMC(MCMCSampler):
             # Touch the file to postpone next check-point attempt
             Path(self.resume_file).touch(exist_ok=True)
         self.ptsampler.pool = _pool
+        self._last_checkpoint_time = time.monotonic()
 
     def print_long_progress(self):
         self.print_per_proposal()
diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index bf66dff..63e30cc 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -691,6 +691,7 @@ class Dynesty(NestedSampler):
         logger.debug("Running sampler with checkpointing")
 
         old_ncall = self.sampler.ncall
+        self._last_checkpoint_time = time.monotonic()
         sampler_kwargs = self.sampler_function_kwargs.copy()
         warnings.filterwarnings(
             "ignore",
@@ -710,7 +711,11 @@ class Dynesty(NestedSampler):
             if os.path.isfile(self.resume_file):
                 last_checkpoint_s = time.time() - os.path.getmtime(self.resume_file)
             else:
-                last_checkpoint_s = time.monotonic() - self.start_time
+                last_checkpoint_s = 0
+            # The age of the file is wrong if the clock was set back
+            last_checkpoint_s = max(
+                last_checkpoint_s, time.monotonic() - self._last_checkpoint_time
+            )
             if last_checkpoint_s > self.check_point_delta_t:
                 self.write_current_state()
                 self.plot_current_state()
@@ -847,6 +852,7 @@ class Dynesty(NestedSampler):
         self.sampler.pool = self.pool
         if self.sampler.pool is not None:
             self.sampler.M = self.sampler.pool.map
+        self._last_checkpoint_time = time.monotonic()
 
     def dump_samples_to_dat(self):
         """
diff --git a/bilby/core/sampler/ptemcee.py b/bilby/core/sampler/ptemcee.py
index 83c83e8..defa301 100644
--- a/bilby/core/sampler/ptemcee.py
+++ b/bilby/core/sampler/ptemcee.py
@@ -560,6 +560,7 @@ class Ptemcee(MCMCSampler):
         sampler = self.setup_sampler()
 
         t0 = time.monotonic()
+        self._last_checkpoint_time = t0
         logger.info("Starting to sample")
 
         while True:
@@ -659,6 +660,10 @@ class Ptemcee(MCMCSampler):
                 last_checkpoint_s = time.time() - os.path.getmtime(self.resume_file)
             else:
                 last_checkpoint_s = np.sum(self.time_per_check)
+            # The age of the file is wrong if the clock was set back
+            last_checkpoint_s = max(
+                last_checkpoint_s, time.monotonic() - self._last_checkpoint_time
+            )
 
             if last_checkpoint_s > self.check_point_delta_t:
                 self.write_current_state(plot=self.check_point_plot)
@@ -729,6 +734,7 @@ class Ptemcee(MCMCSampler):
             self.Q_list[:iteration],
             self.time_per_check[:iteration],
         )
+        self._last_checkpoint_time = time.monotonic()
 
         if plot:
             try:
-- 
2.43.0


From a48c7682db40e1919e87f23fbb79360a568c1865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:17 +0000
Subject: [PATCH 80/80] fix: forget the order of rescaled keys before working
 out another

Interrupted between the two steps, the next call with the earlier keys
used the indexes of others and gave parameters each other's values.
---
 bilby/core/prior/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index c420ae5..39d955d 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -996,6 +996,8 @@ class ConditionalPriorDict(PriorDict):
 
     def _update_rescale_keys(self, keys):
         if not keys == self._least_recently_rescaled_keys:
+            # An interruption must not leave the keys with other indexes
+            self._least_recently_rescaled_keys = []
             self._rescale_indexes = [
                 keys.index(element)
                 for element in self.sorted_keys_without_fixed_parameters
-- 
2.43.0

