From 685133bb2c0c076517f7f2c9125fca4a615489cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:35 +0000
Subject: [PATCH 01/51] fix: keep delayed rejection proposals defined during
 burn-in scaling

---
 pymcmcstat/samplers/Adaptation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 27b9890..b525649 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -65,8 +65,6 @@ class Adaptation:
             covchain = oldcovchain
             meanchain = oldmeanchain
             wsum = oldwsum
-            RDR = None
-            invR = None
         else:
             message(verbosity, 3, str('i:{} adapting ({}, {}, {})'.format(
                     isimu, rejected['total']*(isimu**(-1))*100, rejected['in_adaptation_interval']*(iiadapt**(-1))*100,
@@ -86,8 +84,8 @@ class Adaptation:
             R = check_for_singular_cov_matrix(upcov=upcov, R=R, npar=npar,
                                               qcov_adjust=qcov_adjust, qcov_scale=qcov_scale,
                                               rejected=rejected, iiadapt=iiadapt, verbosity=verbosity)
-            # update dram covariance matrix
-            RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
+        # update dram covariance matrix
+        RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
 
         covariance._update_covariance_from_adaptation(R, covchain, meanchain, wsum,
                                                       last_index_since_adaptation, iiadapt)
-- 
2.43.0


From d7f8c997f290cb3beae5acd961753318e72f20e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:53 +0000
Subject: [PATCH 02/51] fix: set up delayed rejection proposals whenever ntry >
 1

---
 pymcmcstat/procedures/CovarianceProcedures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 82bf6cc..87ffda2 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -56,7 +56,7 @@ class CovarianceProcedures:
         self.__setup_R_matrix(parameters._parind)
         # ----------------
         # setup RDR matrix (RDR used in DR)
-        if options.method == 'dram' or options.method == 'dr':
+        if options.method == 'dram' or options.method == 'dr' or options.ntry > 1:
             self._invR = []
             self.__setup_RDR_matrix(npar=parameters.npar,
                                     drscale=options.drscale, ntry=options.ntry,
-- 
2.43.0


From 7554f45830f62a5c14ed4ff31e0b6ec3e3b3d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:59 +0000
Subject: [PATCH 03/51] fix: stop adapting the proposal after lastadapt

---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 8a52ba9..5fd48ca 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -342,7 +342,8 @@ class MCMC:
                 iiprint = 0  # reset print counter
 
             # ADAPTATION
-            if self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint:
+            if (self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint
+                    and isimu <= self.simulation_options.lastadapt):
                 self._covariance = self._sampling_methods.adaptation.run_adaptation(
                         covariance=self._covariance,
                         options=self.simulation_options,
-- 
2.43.0


From bf2b616c2bede050fbb7ff20b50cf95cde64c771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:19 +0000
Subject: [PATCH 04/51] fix: keep error variance draws out of S20 and the
 user's sigma2 array

---
 pymcmcstat/settings/ModelSettings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index e71aa46..48b4428 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -181,6 +181,8 @@ class ModelSettings:
             sys.exit('SOS function returns nsos = {} elements.  \
                      Length of S20, N0, or sigma2 is {}.\
                      These settings must have one element or nsos elements.'.format(nsos, len(x)))
+        else:  # copy, so that sampled variances overwrite neither S20 nor the user's array
+            x = np.array(x, dtype=float)
         return x
 
     @classmethod
-- 
2.43.0


From d59abe982d184683a24e7d64a8ae397cff2b4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:58 +0000
Subject: [PATCH 05/51] fix: do not turn on updatesigma when rerunning with the
 default N0

---
 pymcmcstat/settings/ModelSettings.py     | 2 ++
 pymcmcstat/settings/SimulationOptions.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 48b4428..b7e5039 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -57,6 +57,7 @@ class ModelSettings:
         self.N = self._array_type(N)
         # check value of N0 - prior accuracy for S20
         self.N0 = self._array_type(N0)
+        self._N0_is_default = False  # True once N0 has been filled in with its default
         # check nbatch - number of data sets
         self.nbatch = self._array_type(nbatch)
         # S20 - prior for sigma2
@@ -98,6 +99,7 @@ class ModelSettings:
         # This is for backward compatibility
         # if sigma2 given then default N0=1, else default N0=0
         if self.N0 is None:
+            self._N0_is_default = True
             if self.sigma2 is None:
                 self.sigma2 = np.ones([1])
                 self.N0 = np.zeros([1])
diff --git a/pymcmcstat/settings/SimulationOptions.py b/pymcmcstat/settings/SimulationOptions.py
index aeb35c3..d4f3b5f 100644
--- a/pymcmcstat/settings/SimulationOptions.py
+++ b/pymcmcstat/settings/SimulationOptions.py
@@ -194,7 +194,7 @@ class SimulationOptions:
         if self.printint is None:
             self.printint = max(100, min(1000, self.adaptint))
         # if N0 given, then also turn on updatesigma
-        if model.N0 is not None:
+        if model.N0 is not None and not getattr(model, '_N0_is_default', False):
             self.updatesigma = True
 
     def display_simulation_options(self, print_these=None):
-- 
2.43.0


From 21599922119a06c8011eb6ac75994f1a507b6dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:24 +0000
Subject: [PATCH 06/51] fix: accept the total number of observations when
 rerunning multi-batch data

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index b7e5039..37330d9 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -121,7 +121,7 @@ class ModelSettings:
         if np.array_equal(udN, dsN):
             N = dsN
         elif dsN.size > udN.size and udN.size == 1:
-            if np.all(dsN == udN[0]):
+            if np.all(dsN == udN[0]) or np.sum(dsN) == udN[0]:  # N per batch, or total over batches
                 N = dsN
             else:
                 sys.exit('User defined N = {}.  Estimate based on data structure is N = {}.\
-- 
2.43.0


From ee9d64f374c6a8832e6e3393dc4692b2846203d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:42 +0000
Subject: [PATCH 07/51] fix: default sigma2 to S20 when S20 is given

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 37330d9..df34acf 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -108,7 +108,7 @@ class ModelSettings:
         # set default value for sigma2
         # default for sigma2 is S20 or 1
         if self.sigma2 is None:
-            if not(np.isnan(self.S20)).any:
+            if not np.isnan(self.S20).any():
                 self.sigma2 = self.S20
             else:
                 self.sigma2 = np.ones(self.nbatch)
-- 
2.43.0


From ef9f68ab495bfac5d93767d09042b932fcf38901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:28 +0000
Subject: [PATCH 08/51] fix: do not count chain rows twice when adapting in a
 continued run

---
 pymcmcstat/samplers/Adaptation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index b525649..95e2013 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -72,7 +72,7 @@ class Adaptation:
             # UPDATE COVARIANCE MATRIX - CHOLESKY, MEAN, SUM
             covchain, meanchain, wsum = update_covariance_mean_sum(
                     chain[last_index_since_adaptation:chainind, :], np.ones(1), oldcovchain, oldmeanchain, oldwsum)
-            last_index_since_adaptation = isimu
+            last_index_since_adaptation = chainind
             # ram
             if doram:
                 upcov = update_cov_via_ram(u=u, isimu=isimu, etaparam=etaparam,
-- 
2.43.0


From 7681c7e8e66f6b808ed623943b79267aabd20f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:55 +0000
Subject: [PATCH 09/51] fix: log the rows of a continued run, and only those

---
 pymcmcstat/MCMC.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 5fd48ca..8f1340d 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -277,6 +277,12 @@ class MCMC:
             self.__s2chain = np.concatenate((self.__s2chain, zero_s2chain), axis=0)
         else:
             self.__s2chain = None
+        # log files are written from the expanded arrays
+        self.__chains = []
+        self.__chains.append(dict(file=self.simulation_options.chainfile, mtx=self.__chain))
+        self.__chains.append(dict(file=self.simulation_options.sschainfile, mtx=self.__sschain))
+        if updatesigma:
+            self.__chains.append(dict(file=self.simulation_options.s2chainfile, mtx=self.__s2chain))
 
     # --------------------------------------------------------
     def __execute_simulator(self):
@@ -288,7 +294,9 @@ class MCMC:
         iiadapt = 0  # adaptation counter
         iiprint = 0  # print counter
         savecount = 0  # save counter
-        lastbin = 0  # initialize bin counter
+        # first chain index to log - rows from previous run have already been logged
+        firstbin = 0 if self.__chain_index == 0 else self.__chain_index + 1
+        lastbin = firstbin  # initialize bin counter
         nsimu = self.simulation_options.nsimu
 
         self.__rejected = {'total': 0, 'in_adaptation_interval': 0, 'outside_bounds': 0}
@@ -378,12 +386,12 @@ class MCMC:
             if savecount == self.simulation_options.savesize:
                 savecount, lastbin = self.__save_to_log_file(
                         chains=self.__chains,
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu)
+                        start=firstbin + isimu - self.simulation_options.savesize,
+                        end=firstbin + isimu)
                 self.__save_to_log_file(
                         chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu,
+                        start=firstbin + isimu - self.simulation_options.savesize,
+                        end=firstbin + isimu,
                         append_to_log=False,
                         covmtx=True)
                 # add custom chains is applicable
@@ -396,17 +404,18 @@ class MCMC:
                                 append_to_log=False)
 
         # SAVE REMAINING ELEMENTS TO BIN FILE
-        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=isimu + 1)
-        self.__save_to_log_file(
-                chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
-                start=lastbin,
-                end=isimu,
-                append_to_log=False,
-                covmtx=True)
+        if lastbin <= self.__chain_index:
+            self.__save_to_log_file(chains=self.__chains, start=lastbin, end=self.__chain_index + 1)
+            self.__save_to_log_file(
+                    chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
+                    start=lastbin,
+                    end=self.__chain_index,
+                    append_to_log=False,
+                    covmtx=True)
         # add custom chains is applicable
         for cs in self.custom_samplers:
             if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
-                self.__save_to_log_file(cs.chains, start=lastbin, end=isimu + 1, append_to_log=False)
+                self.__save_to_log_file(cs.chains, start=lastbin - firstbin, end=nsimu, append_to_log=False)
 
         # update value to end value
         self.parameters._value[self.parameters._parind] = self.__old_set.theta
-- 
2.43.0


From 4cbb256093f7b13e01ce26a391f394fcda661944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:13 +0000
Subject: [PATCH 10/51] fix: restart from json when some parameters are not
 sampled

---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 8f1340d..dd64b77 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -156,7 +156,8 @@ class MCMC:
                 RS = ResultsStructure()
                 res = RS.load_json_object(self.simulation_options.json_restart_file)
                 self.parameters._results_to_params(res, 1)
-                self.simulation_options.qcov = np.array(res['qcov'])
+                # 'qcov' only covers the sampled parameters, 'qcovorig' covers all of them
+                self.simulation_options.qcov = np.array(res.get('qcovorig', res['qcov']))
 
             self.__chain_index = 0  # start index at zero
             self._initialize_simulation()
-- 
2.43.0


From a8f58adc2c642028db5477170f875ad4d1731324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:32 +0000
Subject: [PATCH 11/51] fix: read binary log blocks in chain order and with
 unequal sizes

---
 pymcmcstat/chain/ChainProcessing.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 6caa254..4b33771 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -261,7 +261,7 @@ def read_in_bin_file(filename):
     '''
     try:
         hf = h5py.File(filename, 'r')
-        ds = list(hf.keys())  # data sets
+        ds = sorted(hf.keys(), key=_dataset_order)  # data sets, in the order they were logged
         # check size of each set
         sh = np.zeros([len(ds), 2], dtype=int)
         for ii, dsii in enumerate(ds):
@@ -272,12 +272,8 @@ def read_in_bin_file(filename):
         # assume all have same number of columns
         out = np.zeros([sum(sh[:, 0]), sh[0, 1]])
         for ii, dsii in enumerate(ds):
-            if ii == 0:
-                a = 0
-                b = sh[ii, 0]
-            else:
-                a = a + sh[ii-1, 0]
-                b = b + sh[ii-1, 0]
+            a = sum(sh[:ii, 0])
+            b = a + sh[ii, 0]
             out[a:b, :] = np.array(hf.get(dsii))
         hf.close()
     except Exception as ex:
@@ -290,6 +286,16 @@ def read_in_bin_file(filename):
     return out
 
 
+def _dataset_order(name):
+    '''
+    Sort key for log file data sets - :code:`nsimu_{start}_{end}` is sorted by start index.
+    '''
+    parts = name.split('_')
+    if len(parts) == 3 and parts[1].isdigit():
+        return (0, int(parts[1]), name)
+    return (1, 0, name)
+
+
 def read_in_txt_file(filename):
     '''
     Read in information from file containing text data.
-- 
2.43.0


From f984d376d353a259ab4cd5beed63f5a36c006171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:40 +0000
Subject: [PATCH 12/51] fix: keep single-column and single-row text logs
 two-dimensional

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 4b33771..41c219a 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -310,7 +310,7 @@ def read_in_txt_file(filename):
         * **out** (:class:`~numpy.ndarray`): Array of chain elements.
     '''
     try:
-        out = np.loadtxt(filename)
+        out = np.loadtxt(filename, ndmin=2)
     except Exception as ex:
         template = "An exception of type {0} occurred. Arguments:\n{1!r}"
         message = template.format(type(ex).__name__, ex.args)
-- 
2.43.0


From b1a93957b93f9473c431ddde5770898461ffafed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 13/51] fix: load saved results with chains in json or in log
 files

---
 pymcmcstat/ParallelMCMC.py          | 12 ++++++------
 pymcmcstat/chain/ChainProcessing.py | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 1237dce..c02e620 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -399,13 +399,13 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 41c219a..95c2856 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -87,7 +87,7 @@ def load_serial_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out['chain'] == []:
+        if len(out['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
         results['chain'] = out['chain']
         results['sschain'] = out['sschain']
@@ -123,13 +123,13 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
-- 
2.43.0


From ad84de72dab72e91bf6771f3ceb0d1b34c5edd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:37 +0000
Subject: [PATCH 14/51] fix: honour the json_file requested when loading serial
 results

---
 pymcmcstat/chain/ChainProcessing.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 95c2856..f5f0229 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -68,11 +68,12 @@ def load_serial_simulation_results(
     Returns:
         * **results** (:py:class:`dict`): Each element of list is an MCMC result dictionary.
     '''
-    items = os.listdir(savedir)
-    for item in items:
-        if item.endswith('.json'):
-            json_file = item
-            break
+    if json_file is None:
+        items = os.listdir(savedir)
+        for item in items:
+            if item.endswith('.json'):
+                json_file = item
+                break
     if json_file is not None:
         results = load_json_object(savedir + os.sep + json_file)
     else:
-- 
2.43.0


From f0cbf64b85826d196ad7ff3c0cd0b6b74034a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:42 +0000
Subject: [PATCH 15/51] fix: order parallel chain folders by chain number

---
 pymcmcstat/chain/ChainProcessing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index f5f0229..d17547b 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -243,7 +243,8 @@ def check_parallel_directory_contents(parallel_dir, cf_orig):
         if (os.path.isdir(parallel_dir + os.sep + cf) is True) and ('chain_' in cf):
             chainfolders.append(cf)
 
-    chainfolders.sort()  # sort elements
+    # sort elements - numerically, so that chain_10 comes after chain_9
+    chainfolders.sort(key=lambda cf: (int(cf.split('_')[-1]) if cf.split('_')[-1].isdigit() else -1, cf))
     return chainfolders
 
 
-- 
2.43.0


From eb43d5a81e92aa457a07547c1e135ae23ef494db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:00 +0000
Subject: [PATCH 16/51] fix: give each parallel worker its own random number
 stream

---
 pymcmcstat/ParallelMCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index c02e620..1841031 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -102,7 +102,8 @@ class ParallelMCMC:
             Parallel simulation run time: 16.15234899520874 sec
         '''
         start = time.time()
-        mcpool = Pool(processes=self.num_cores)  # depends on available cores
+        # depends on available cores - reseed, or forked workers would share one random number stream
+        mcpool = Pool(processes=self.num_cores, initializer=np.random.seed)
         res = mcpool.map(run_serial_simulation, self.parmc)
         mcpool.close()  # not optimal! but easy
         mcpool.join()
-- 
2.43.0


From 8e64776608ae548001a3765e88a94042d018c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:06 +0000
Subject: [PATCH 17/51] fix: keep fixed parameters at their value in parallel
 chains

---
 pymcmcstat/ParallelMCMC.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 1841031..8ef22e3 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -57,6 +57,10 @@ class ParallelMCMC:
                 npar=npar,
                 low_lim=low_lim,
                 upp_lim=upp_lim)
+        if initial_values is None:  # parameters that are not sampled keep their value
+            for jj, par in enumerate(parameters.parameters):
+                if not par['sample']:
+                    self.initial_values[:, jj] = par['theta0']
         # assign parallel log file directory
         parallel_dir = options.savedir
         check_directory(parallel_dir)
-- 
2.43.0


From 410ae784a6e23d07f269a7cc904256f3cd22a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:11 +0000
Subject: [PATCH 18/51] fix: check the user's parallel initial values against
 the actual limits

---
 pymcmcstat/ParallelMCMC.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 8ef22e3..0513a92 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -47,6 +47,9 @@ class ParallelMCMC:
         # extract settings from mcset
         data, options, model, parameters = unpack_mcmc_set(mcset=mcset)
         npar, low_lim, upp_lim = get_parameter_features(parameters.parameters)
+        if initial_values is not None:  # finite limits are only needed to generate initial values
+            low_lim = np.array([par['minimum'] for par in parameters.parameters])
+            upp_lim = np.array([par['maximum'] for par in parameters.parameters])
         options = check_options_output(options)
         # number of CPUs
         self.num_cores = assign_number_of_cores(num_cores)
-- 
2.43.0


From 15916ef171de7385d44b0cc6441d3121ddcd92fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:17 +0000
Subject: [PATCH 19/51] fix: run custom samplers in parallel chains

---
 pymcmcstat/ParallelMCMC.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 0513a92..6ff98a0 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -84,6 +84,8 @@ class ParallelMCMC:
             self.parmc[ii].simulation_options.json_restart_file = check_for_restart_file(
                     options.json_restart_file,
                     chain_dir)
+            # replicate custom samplers
+            self.parmc[ii].custom_samplers = copy.deepcopy(mcset.custom_samplers)
             # replicate parameter settings and assign distributed initial values
             self.parmc[ii].parameters = copy.deepcopy(parameters)
             for jj in range(npar):
-- 
2.43.0


From ffc57c86885bcdd955fee1c5090442a26a29daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:45 +0000
Subject: [PATCH 20/51] fix: evaluate the randomly sampled chain rows in
 calculate_intervals

---
 pymcmcstat/propagation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 7dfeb24..6e190f0 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -65,7 +65,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         if waitbar is True:
             __wbarstatus.update(kk)
         # extract chain set
-        q[parind] = chain[kk, :]
+        q[parind] = chain[isa, :]
         # evaluate model
         y = model(q, data)
         # check model output
@@ -80,7 +80,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                 continue
             else:
                 # estimate prediction intervals
-                s2 = s2chain[kk]
+                s2 = s2chain[isa]
                 obs = observation_sample(s2, y, sstype)
                 pi.append(obs.reshape(obs.size,))
         else:
@@ -101,11 +101,11 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                     # estimate prediction intervals
                     if s2chain.ndim == 2:
                         if s2chain.shape[1] == ncol:
-                            s2 = s2chain[kk, jj]
+                            s2 = s2chain[isa, jj]
                         else:
-                            s2 = s2chain[kk]
+                            s2 = s2chain[isa]
                     else:
-                        s2 = s2chain[kk]
+                        s2 = s2chain[isa]
                     obs = observation_sample(s2, y[:, jj], sstype)
                     pis[jj].append(obs.reshape(obs.size,))
 
-- 
2.43.0


From d3a2ced5bbf377eb45c368e724504098a3ab93d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:50 +0000
Subject: [PATCH 21/51] fix: do not overwrite the last sample stored in results
 in calculate_intervals

---
 pymcmcstat/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 6e190f0..6711243 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -50,7 +50,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         * :py:class:`dict` with two elements: 1) `credible` and 2) `prediction`
     '''
     parind = results['parind']
-    q = results['theta']
+    q = np.array(results['theta'], dtype=float)  # copy - results must not change
     nsimu, npar = chain.shape
     s2chain = check_s2chain(s2chain, nsimu)
     iisample, nsample = define_sample_points(nsample, nsimu)
-- 
2.43.0


From 30ac09400eee8ca223dad7e60f3da2c5cac4dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:56 +0000
Subject: [PATCH 22/51] fix: do not reorder the user's list of interval limits

---
 pymcmcstat/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 6711243..df3f06c 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -635,7 +635,7 @@ def _setup_labels(limits, inttype='CI'):
 def _check_limits(limits, default_limits):
     if limits is None:
         limits = default_limits
-    limits.sort(reverse=True)
+    limits = sorted(limits, reverse=True)  # copy - leave the user's list alone
     return limits
 
 
-- 
2.43.0


From 0c8b49f09995478e40bd112f4c581ecf978a8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:22 +0000
Subject: [PATCH 23/51] fix: do not overwrite the last sample stored in results
 when generating intervals

---
 pymcmcstat/plotting/PredictionIntervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index c82f7b0..7191e62 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -469,7 +469,7 @@ class PredictionIntervals:
             * **ysave** (:class:`~numpy.ndarray`): Model responses.
         '''
         nsample = testchain.shape[0]
-        theta = self.__theta
+        theta = np.array(self.__theta)  # copy - results must not change
         ysave = np.zeros([nsample, nrow, ncol])
         for kk, isa in enumerate(testchain):
             # progress bar
@@ -507,7 +507,7 @@ class PredictionIntervals:
             * **osave** (:class:`~numpy.ndarray`): Model responses with observation errors.
         '''
         nsample = testchain.shape[0]
-        theta = self.__theta
+        theta = np.array(self.__theta)  # copy - results must not change
         ysave = np.zeros([nsample, nrow, ncol])
         osave = np.zeros([nsample, nrow, ncol])
         for kk, isa in enumerate(testchain):
-- 
2.43.0


From 2a13d4afc8520bbb94fcf471c8775ec55f50641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:29 +0000
Subject: [PATCH 24/51] fix: use int instead of the removed np.int in interval
 plotting

---
 pymcmcstat/plotting/PredictionIntervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index 7191e62..4ffd17a 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -823,6 +823,6 @@ class PredictionIntervals:
         nbatch = len(credible_intervals)
         # define counting metrics
         nlines = len(credible_intervals[0][0])  # number of lines
-        nn = np.int((nlines + 1)/2)  # median
+        nn = int((nlines + 1)/2)  # median
         nlines = nn - 1
         return nbatch, nn, nlines
-- 
2.43.0


From eaefd364632e685ff23b381004d0824d194a97db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:53 +0000
Subject: [PATCH 25/51] fix: count every element of data given as a list

---
 pymcmcstat/settings/DataStructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index 78c80ea..01b0513 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -110,7 +110,7 @@ class DataStructure:
             * **xy** (:class:`~numpy.ndarray`): Variable as numpy array
         '''
         if isinstance(xy, np.ndarray) is False:
-            xy = np.array([xy])
+            xy = np.atleast_1d(np.array(xy))
         return xy
 
     @classmethod
-- 
2.43.0


From e4d4e92ec53035bf97a2e6e135d2248eaebe9fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:58 +0000
Subject: [PATCH 26/51] fix: use the number of data points given by the user

---
 pymcmcstat/settings/DataStructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index 01b0513..46f87b2 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -93,6 +93,8 @@ class DataStructure:
                 self.n.append(y.size)
             else:  # should
                 self.n.append(y.shape[0])  # assume y is a numpy array - nrows is n
+        else:
+            self.n.append(n)
         self.shape.append(y.shape)
         self.weight.append(weight)
         # add user defined objects option
-- 
2.43.0


From 8c1111f0a1d00251b026dd4e7b35082034b8b017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:03 +0000
Subject: [PATCH 27/51] fix: encode numpy scalars when saving results to json

---
 pymcmcstat/utilities/NumpyEncoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/utilities/NumpyEncoder.py b/pymcmcstat/utilities/NumpyEncoder.py
index dac317e..1e23b27 100644
--- a/pymcmcstat/utilities/NumpyEncoder.py
+++ b/pymcmcstat/utilities/NumpyEncoder.py
@@ -17,4 +17,6 @@ class NumpyEncoder(json.JSONEncoder):
     def default(self, obj):
         if isinstance(obj, np.ndarray):
             return obj.tolist()
+        if isinstance(obj, np.generic):  # numpy scalar
+            return obj.item()
         return json.JSONEncoder.default(self, obj)
-- 
2.43.0


From c605154e3cd6c87d07e6badfade020275b24442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:21 +0000
Subject: [PATCH 28/51] fix: run the default sum-of-squares with a user defined
 nbatch

---
 pymcmcstat/settings/ModelSettings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index df34acf..b318e4f 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -90,6 +90,8 @@ class ModelSettings:
         '''
         if self.nbatch is None:
             self.nbatch = data.get_number_of_batches()
+        elif isinstance(self.nbatch, np.ndarray):
+            self.nbatch = int(self.nbatch[0])
         if self.N is not None:
             self.N = self._check_number_of_observations(udN=self.N, dsN=self._array_type(data.n))
         else:
-- 
2.43.0


From 6e7efe7a25c7a81f0237b56b06893a6e664ce36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:10 +0000
Subject: [PATCH 29/51] fix: do not extend the user's list of names in place

---
 pymcmcstat/plotting/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/plotting/utilities.py b/pymcmcstat/plotting/utilities.py
index afabd8b..06cbf7c 100644
--- a/pymcmcstat/plotting/utilities.py
+++ b/pymcmcstat/plotting/utilities.py
@@ -117,6 +117,8 @@ def extend_names_to_match_nparam(names, nparam):
     if names is None:
         names = []
     n0 = len(names)
+    if n0 < nparam:
+        names = list(names)  # copy - leave the user's list alone
     for ii in range(n0, nparam):
         names.append(str('$p_{{{}}}$'.format(ii)))
     return names
-- 
2.43.0


From a5646e37b1c74a0b76ee99c945c0f937d07bfe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:48 +0000
Subject: [PATCH 30/51] fix: keep the current sum-of-squares when the user
 function reuses its output array

---
 pymcmcstat/procedures/SumOfSquares.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/procedures/SumOfSquares.py b/pymcmcstat/procedures/SumOfSquares.py
index c949368..f9da8f0 100644
--- a/pymcmcstat/procedures/SumOfSquares.py
+++ b/pymcmcstat/procedures/SumOfSquares.py
@@ -65,6 +65,8 @@ class SumOfSquares:
         # make sure sos is a numpy array
         if not isinstance(ss, np.ndarray):
             ss = np.array([ss])
+        else:
+            ss = ss.copy()  # the user may return the same array on every evaluation
         return ss
 
     @classmethod
-- 
2.43.0


From 7d40af90fca1f7cac07289bcd435713607bca6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:53 +0000
Subject: [PATCH 31/51] fix: keep fixed parameters safe from sum-of-squares
 functions that modify theta

---
 pymcmcstat/procedures/SumOfSquares.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymcmcstat/procedures/SumOfSquares.py b/pymcmcstat/procedures/SumOfSquares.py
index f9da8f0..b45ea47 100644
--- a/pymcmcstat/procedures/SumOfSquares.py
+++ b/pymcmcstat/procedures/SumOfSquares.py
@@ -52,15 +52,16 @@ class SumOfSquares:
         '''
         # evaluate sum-of-squares function
         self.value[self.parind] = theta
+        value = self.value.copy()  # the user may change or keep the array it is given
         if self.sos_style == 1:
             try:
-                ss = self.sos_function(self.value, self.data, custom=custom)
+                ss = self.sos_function(value, self.data, custom=custom)
             except TypeError:
-                ss = self.sos_function(self.value, self.data)
+                ss = self.sos_function(value, self.data)
         elif self.sos_style == 4:
-            ss = self.mcmc_sos_function(self.value, self.data, self.nbatch, self.model_function)
+            ss = self.mcmc_sos_function(value, self.data, self.nbatch, self.model_function)
         else:
-            ss = self.sos_function(self.value, self.data, self.local)
+            ss = self.sos_function(value, self.data, self.local)
 
         # make sure sos is a numpy array
         if not isinstance(ss, np.ndarray):
-- 
2.43.0


From 926ecc5f8a32412a88a11954d031071587106c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:20 +0000
Subject: [PATCH 32/51] fix: default error variance does not depend on the
 number of data batches

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index b318e4f..5bec629 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -113,7 +113,7 @@ class ModelSettings:
             if not np.isnan(self.S20).any():
                 self.sigma2 = self.S20
             else:
-                self.sigma2 = np.ones(self.nbatch)
+                self.sigma2 = np.ones(1)  # expanded to one per sum-of-squares element later
         if np.isnan(self.S20).any():
             self.S20 = self.sigma2  # prior parameters for the error variance
 
-- 
2.43.0


From 659795fdd9c7b9e7e4a6f8f2c8b6c3d091dcc18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:39 +0000
Subject: [PATCH 33/51] fix: display covariance settings when delayed rejection
 is not used

---
 pymcmcstat/procedures/CovarianceProcedures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 87ffda2..fe577b4 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -38,6 +38,7 @@ class CovarianceProcedures:
         self._R = None
         self._qcov_original = None
         self._invR = None
+        self._RDR = None
         self._iacce = None
         self._covchain = None
         self._meanchain = None
-- 
2.43.0


From 4864878b4dfa40e35b6b6805f77c8f2447af37e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:14 +0000
Subject: [PATCH 34/51] fix: prediction interval set up hands the model its own
 copy of the parameters

---
 pymcmcstat/plotting/PredictionIntervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index 4ffd17a..470b722 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -120,7 +120,7 @@ class PredictionIntervals:
             self.__nbatch = results['model'].nbatch
         else:
             self.__nbatch = results['model_settings']['nbatch']
-        self.__theta = results['theta']
+        self.__theta = np.array(results['theta'])  # copy - results must not change
         if 'sstype' in results:
             self.__sstype = results['sstype']
         else:
-- 
2.43.0


From 110a9fb2780fa22c1649125d082048030fe68fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:20 +0000
Subject: [PATCH 35/51] fix: propagation keeps its own copy of parameters and
 model responses

---
 pymcmcstat/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index df3f06c..2d7dad6 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -67,7 +67,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         # extract chain set
         q[parind] = chain[isa, :]
         # evaluate model
-        y = model(q, data)
+        y = np.array(model(q.copy(), data))  # copies - model may reuse its arrays
         # check model output
         if y.ndim == 2:
             nrow, ncol = y.shape
-- 
2.43.0


From ef8a9087f528ec49b538106cf6208ebdfc5f1b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:04 +0000
Subject: [PATCH 36/51] fix: setting up a parallel simulation does not change
 the original options

---
 pymcmcstat/ParallelMCMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 6ff98a0..bd71523 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -50,7 +50,7 @@ class ParallelMCMC:
         if initial_values is not None:  # finite limits are only needed to generate initial values
             low_lim = np.array([par['minimum'] for par in parameters.parameters])
             upp_lim = np.array([par['maximum'] for par in parameters.parameters])
-        options = check_options_output(options)
+        options = check_options_output(copy.deepcopy(options))  # settings in mcset must not change
         # number of CPUs
         self.num_cores = assign_number_of_cores(num_cores)
         # check initial values and number of chains to be generated
-- 
2.43.0


From 55969db2cd51b8550417b9093232780ba285ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:07 +0000
Subject: [PATCH 37/51] fix: a model that changes its argument does not corrupt
 the fixed values of prediction intervals

---
 pymcmcstat/plotting/PredictionIntervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index 470b722..1ada171 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -140,9 +140,9 @@ class PredictionIntervals:
         ncol = []
         for ii in range(ndatabatches):
             if isinstance(modelfunction, list):
-                y = modelfunction[ii](datapred[ii], theta)
+                y = modelfunction[ii](datapred[ii], np.array(theta))
             else:
-                y = modelfunction(datapred[ii], theta)
+                y = modelfunction(datapred[ii], np.array(theta))
             sh = y.shape
             nrow, ncol = append_to_nrow_ncol_based_on_shape(sh, nrow, ncol)
         return nrow, ncol
-- 
2.43.0


From 52a00fed4d492b29e0866f6cd8787e62c348ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:22 +0000
Subject: [PATCH 38/51] fix: a model that changes its argument does not corrupt
 the misfit of later batches

---
 pymcmcstat/procedures/SumOfSquares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/SumOfSquares.py b/pymcmcstat/procedures/SumOfSquares.py
index b45ea47..000ba30 100644
--- a/pymcmcstat/procedures/SumOfSquares.py
+++ b/pymcmcstat/procedures/SumOfSquares.py
@@ -102,7 +102,7 @@ class SumOfSquares:
             ydata = data.ydata[ibatch]
             weight = data.weight[ibatch]
             # evaluate model
-            ymodel = model_function(xdata, theta)
+            ymodel = model_function(xdata, np.array(theta))  # copy - model may change its argument
             # calculate sum-of-squares error
             ss[ibatch] += sum(weight*(ydata-ymodel)**2)
         return ss
-- 
2.43.0


From 702710e672b44d82b96729855f938281d88594cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:27 +0000
Subject: [PATCH 39/51] fix: default misfit handles data sets with several
 columns and vector responses

---
 pymcmcstat/procedures/SumOfSquares.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/SumOfSquares.py b/pymcmcstat/procedures/SumOfSquares.py
index 000ba30..1355d2b 100644
--- a/pymcmcstat/procedures/SumOfSquares.py
+++ b/pymcmcstat/procedures/SumOfSquares.py
@@ -103,6 +103,12 @@ class SumOfSquares:
             weight = data.weight[ibatch]
             # evaluate model
             ymodel = model_function(xdata, np.array(theta))  # copy - model may change its argument
+            # response may be returned as a vector or with one column per column of the data
+            if np.size(ymodel) == np.size(ydata):
+                ymodel = np.reshape(ymodel, np.shape(ydata))
+            residual = ydata - ymodel
+            if np.shape(residual) != np.shape(ydata):
+                sys.exit('Model response does not match shape of data set {}'.format(ibatch))
             # calculate sum-of-squares error
-            ss[ibatch] += sum(weight*(ydata-ymodel)**2)
+            ss[ibatch] += np.sum(weight*residual**2)
         return ss
-- 
2.43.0


From 01744bb6fb9e243e6689e2d2d74081739c9c41d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:10 +0000
Subject: [PATCH 40/51] fix: another run of the same object starts at the
 configured error variance

---
 pymcmcstat/MCMC.py                              | 2 ++
 pymcmcstat/procedures/ErrorVarianceEstimator.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index dd64b77..106bb01 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -144,6 +144,8 @@ class MCMC:
             if self._mcmc_status is True:
                 self.parameters._results_to_params(self.simulation_results.results, 1)
                 self._initialize_simulation()
+                if self.__s2chain is not None:  # error variance of the state being continued
+                    self.__initial_set.sigma2 = np.array(self.__s2chain[-1, :])
                 self.__expand_chains(
                         nsimu=self.simulation_options.nsimu,
                         npar=self.parameters.npar,
diff --git a/pymcmcstat/procedures/ErrorVarianceEstimator.py b/pymcmcstat/procedures/ErrorVarianceEstimator.py
index 9a38634..054b5f5 100644
--- a/pymcmcstat/procedures/ErrorVarianceEstimator.py
+++ b/pymcmcstat/procedures/ErrorVarianceEstimator.py
@@ -54,7 +54,7 @@ class ErrorVarianceEstimator:
         N0 = model.N0
         S20 = model.S20
         N = model.N
-        sigma2 = model.sigma2  # initializes it as array
+        sigma2 = np.array(model.sigma2, dtype=float)  # new array - keep configured value for another run
         nsos = len(sos)
 
         for jj in range(0, nsos):
-- 
2.43.0


From 0971d7ea32971ac55fcafc78ca0c81e95d41f08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:48 +0000
Subject: [PATCH 41/51] fix: continuing a run logs the chains of custom
 samplers without name collisions

---
 pymcmcstat/MCMC.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 106bb01..72100d0 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -162,6 +162,7 @@ class MCMC:
                 self.simulation_options.qcov = np.array(res.get('qcovorig', res['qcov']))
 
             self.__chain_index = 0  # start index at zero
+            self.__custom_index = 0  # elements of custom chains logged so far
             self._initialize_simulation()
             self.__initialize_chains(
                     chainind=self.__chain_index,
@@ -404,7 +405,8 @@ class MCMC:
                                 chains=cs.chains,
                                 start=isimu - self.simulation_options.savesize,
                                 end=isimu,
-                                append_to_log=False)
+                                append_to_log=False,
+                                offset=self.__custom_index)
 
         # SAVE REMAINING ELEMENTS TO BIN FILE
         if lastbin <= self.__chain_index:
@@ -418,7 +420,9 @@ class MCMC:
         # add custom chains is applicable
         for cs in self.custom_samplers:
             if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
-                self.__save_to_log_file(cs.chains, start=lastbin - firstbin, end=nsimu, append_to_log=False)
+                self.__save_to_log_file(cs.chains, start=lastbin - firstbin, end=nsimu, append_to_log=False,
+                                        offset=self.__custom_index)
+        self.__custom_index += nsimu
 
         # update value to end value
         self.parameters._value[self.parameters._parind] = self.__old_set.theta
@@ -468,13 +472,14 @@ class MCMC:
         self.simulation_results.add_sschain(sschain=self.__sschain)
 
     # ------------------------------------------------
-    def __save_to_log_file(self, chains, start, end, append_to_log=True, covmtx=False):
+    def __save_to_log_file(self, chains, start, end, append_to_log=True, covmtx=False, offset=0):
         '''
         Save to log files
 
         Args:
             * **start** (:py:class:`int`): Start index of chain block to save
             * **end** (:py:class:`int`): End index of chain block to save
+            * **offset** (:py:class:`int`): No. of elements logged by previous runs
 
         Returns:
             * **savecount** (:py:class:`int`): Reset save counter
@@ -491,7 +496,7 @@ class MCMC:
             if covmtx is True:
                 self.__save_covmtx_chain(chain=chains[0], start=start, end=end, extension='h5')
             else:
-                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='h5')
+                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='h5', offset=offset)
 
         if self.simulation_options.save_to_txt is True:
             savedir = self.simulation_options.savedir
@@ -511,7 +516,7 @@ class MCMC:
         return savecount, lastbin
 
     # --------------------------------------------------------
-    def __save_chains(self, chains, savedir, start, end, extension):
+    def __save_chains(self, chains, savedir, start, end, extension, offset=0):
         '''
         Save custom chain segment
 
@@ -532,7 +537,7 @@ class MCMC:
             chainfile = ChainProcessing._create_path_with_extension(savedir, chain['file'], extension=extension)
             if extension.lower() == 'h5':
                 # define set name based in start/end
-                datasetname = str('{}_{}_{}'.format('nsimu', start, end-1))
+                datasetname = str('{}_{}_{}'.format('nsimu', start + offset, end - 1 + offset))
                 ChainProcessing._save_to_bin_file(chainfile, datasetname=datasetname, mtx=chain['mtx'][start:end, :])
             else:
                 ChainProcessing._save_to_txt_file(chainfile, mtx=chain['mtx'][start:end, :])
-- 
2.43.0


From 08746eb57e2e7f3f430b616930e4690ac3c5c53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:12 +0000
Subject: [PATCH 42/51] fix: keep the sampler state safe from prior functions
 that modify or reuse arrays

---
 pymcmcstat/procedures/PriorFunction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/PriorFunction.py b/pymcmcstat/procedures/PriorFunction.py
index 0ac7fb9..f7c3f65 100644
--- a/pymcmcstat/procedures/PriorFunction.py
+++ b/pymcmcstat/procedures/PriorFunction.py
@@ -58,4 +58,6 @@ class PriorFunction:
         Args:
             * **theta** (:class:`~numpy.ndarray`): Current parameter values.
         '''
-        return self.priorfun(theta, self.mu, self.sigma)
+        # the user may change or keep the arrays it is given, and return the same array on every evaluation
+        prior = self.priorfun(np.array(theta), np.array(self.mu), np.array(self.sigma))
+        return prior.copy() if isinstance(prior, np.ndarray) else prior
-- 
2.43.0


From e585d81eb2afbe2753897abb599d2b7245904ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:58 +0000
Subject: [PATCH 43/51] fix: the ram method adapts to the acceptance
 probability, not its logarithm

---
 pymcmcstat/samplers/Metropolis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/samplers/Metropolis.py b/pymcmcstat/samplers/Metropolis.py
index 18abfb8..a806664 100644
--- a/pymcmcstat/samplers/Metropolis.py
+++ b/pymcmcstat/samplers/Metropolis.py
@@ -84,7 +84,8 @@ class Metropolis:
             # make acceptance decision
             accept = log_posterior_ratio_acceptance_test(alpha)
             # store parameter sets in objects
-            newset = ParameterSet(theta=newpar, ss=ss1, prior=newprior, sigma2=sigma2, alpha=alpha)
+            newset = ParameterSet(theta=newpar, ss=ss1, prior=newprior, sigma2=sigma2,
+                                  alpha=0.0 if np.isnan(alpha) else np.exp(min(0.0, alpha)))
         return accept, newset, outbound, npar_sample_from_normal
 
     # --------------------------------------------------------
-- 
2.43.0


From 12cd3056394fac55312b252c82dcfc078f969c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:03 +0000
Subject: [PATCH 44/51] fix: mark the parameters that are not adapted in the
 displayed table

---
 pymcmcstat/settings/ModelParameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelParameters.py b/pymcmcstat/settings/ModelParameters.py
index 20d387f..f29e7d3 100644
--- a/pymcmcstat/settings/ModelParameters.py
+++ b/pymcmcstat/settings/ModelParameters.py
@@ -411,7 +411,7 @@ def noadapt_display_setting(no_adapt):
     Returns:
         * **st** (:py:class:`str`): String to be displayed.
     '''
-    if no_adapt is True:  # THIS PARAMETER IS FIXED
+    if no_adapt:  # THIS PARAMETER IS FIXED
         return str(' (*)')
     else:
         return str('')
-- 
2.43.0


From 06e8469654931591278589a9debee89d94bf47c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:11 +0000
Subject: [PATCH 45/51] fix: progress bar counts the iterations done, not one
 more

---
 pymcmcstat/utilities/progressbar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/utilities/progressbar.py b/pymcmcstat/utilities/progressbar.py
index 17274ef..752175a 100644
--- a/pymcmcstat/utilities/progressbar.py
+++ b/pymcmcstat/utilities/progressbar.py
@@ -22,7 +22,7 @@ class ProgressBar(object):
         i = i + 1
 
         if elapsed - self.last > self.animation_interval:
-            self.animate(i + 1, elapsed)
+            self.animate(i, elapsed)
             self.last = elapsed
         elif i == self.iterations:
             self.animate(i, elapsed)
-- 
2.43.0


From a3d5deaebe2533b64af49a06203c4f6b6b87be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:20 +0000
Subject: [PATCH 46/51] fix: accept integer arrays of delayed rejection scales

---
 pymcmcstat/procedures/CovarianceProcedures.py | 2 +-
 pymcmcstat/samplers/Adaptation.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index fe577b4..7538f2d 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -175,7 +175,7 @@ class CovarianceProcedures:
             RDR.append(self._R)
             self._invR.append(np.linalg.solve(self._R, np.eye(npar)))
             for ii in range(1, ntry):
-                RDR.append(RDR[ii-1]*(drscale[min(ii, len(drscale))-1]**(-1)))
+                RDR.append(RDR[ii-1]*(drscale[min(ii, len(drscale))-1]**(-1.0)))
                 self._invR.append(np.linalg.solve(RDR[ii], np.eye(npar)))
         else:  # DR strategy: just scale R's down by DR_scale
             for ii in range(ntry):
diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 95e2013..825d74f 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -492,6 +492,6 @@ def update_delayed_rejection(R, npar, ntry, drscale):
         RDR.append(R)
         invR.append(np.linalg.solve(RDR[0], np.eye(npar)))
         for ii in range(1, ntry):
-            RDR.append(RDR[ii-1]*((drscale[min(ii, len(drscale)) - 1])**(-1)))
+            RDR.append(RDR[ii-1]*((drscale[min(ii, len(drscale)) - 1])**(-1.0)))
             invR.append(invR[ii-1]*(drscale[min(ii, len(drscale)) - 1]))
     return RDR, invR
-- 
2.43.0


From 085cb45cba378470ed90e49d420f565ae3b88bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:39 +0000
Subject: [PATCH 47/51] fix: 3-D interval plots failed on current matplotlib

Axes3D(fig) no longer adds itself to the figure, so fig.gca() returned 2-D
axes, and Poly3DCollection no longer has _facecolors3d, so every call of
plot_3d_intervals raised AttributeError.
---
 pymcmcstat/propagation.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 2d7dad6..4ac40f8 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -382,7 +382,7 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
     piset['labels'] = _setup_labels(piset['limits'], inttype='PI')
     if fig is None:
         fig = plt.figure(figsize=figsize)
-        ax = Axes3D(fig)
+        fig.add_subplot(111, projection='3d')
     ax = fig.gca()
     time1 = time[:, 0]
     time2 = time[:, 1]
@@ -399,9 +399,10 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
             surf = Poly3DCollection(verts,
                                     color=piset['colors'][ii],
                                     label=piset['labels'][ii])
-            # Add fix for legend compatibility
-            surf._facecolors2d = surf._facecolors3d
-            surf._edgecolors2d = surf._edgecolors3d
+            # Add fix for legend compatibility (older versions of matplotlib)
+            if hasattr(surf, '_facecolors3d'):
+                surf._facecolors2d = surf._facecolors3d
+                surf._edgecolors2d = surf._edgecolors3d
             ax.add_collection3d(surf)
     # add credible intervals
     if addcredible is True:
@@ -416,9 +417,10 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
             surf = Poly3DCollection(verts,
                                     color=ciset['colors'][ii],
                                     label=ciset['labels'][ii])
-            # Add fix for legend compatibility
-            surf._facecolors2d = surf._facecolors3d
-            surf._edgecolors2d = surf._edgecolors3d
+            # Add fix for legend compatibility (older versions of matplotlib)
+            if hasattr(surf, '_facecolors3d'):
+                surf._facecolors2d = surf._facecolors3d
+                surf._edgecolors2d = surf._edgecolors3d
             ax.add_collection3d(surf)
     # add model (median model response)
     if addmodel is True:
-- 
2.43.0


From 5279ea7fe97bd07792b010d98a605f70d88e9199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 48/51] fix: observations at their own points could not be
 added to 3-D interval plots

With xdata given, the observations were reshaped to the evaluation times, which
fails whenever there are not equally many of both.
---
 pymcmcstat/propagation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 4ac40f8..3d44e0e 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -429,12 +429,12 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
     # add data to plot
     if ydata is not None and adddata is None:
         adddata = True
-    if adddata is True:
+    if adddata is True and ydata is not None:
         if xdata is None:
             ax.plot(time1, time2, ydata.reshape(time1.shape), **data_display)
         else:  # User provided xdata array for observation points
             ax.plot(xdata[:, 0], xdata[:, 1],
-                    ydata.reshape(time1.shape), **data_display)
+                    ydata.reshape(xdata.shape[0]), **data_display)
     # add legend
     if addlegend is True:
         handles, labels = ax.get_legend_handles_labels()
-- 
2.43.0


From 1d921d06cd0c70da4715527955e7d431b7ca3144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:29 +0000
Subject: [PATCH 49/51] fix: delayed rejection treats candidates whose
 posterior is not a number as impossible

---
 pymcmcstat/samplers/DelayedRejection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/samplers/DelayedRejection.py b/pymcmcstat/samplers/DelayedRejection.py
index 1817a2e..4f2a140 100644
--- a/pymcmcstat/samplers/DelayedRejection.py
+++ b/pymcmcstat/samplers/DelayedRejection.py
@@ -145,6 +145,8 @@ class DelayedRejection:
                 loglike=-0.5*(x1.ss/x1.sigma2).sum(),
                 logpriorstar=-0.5*x2.prior,
                 logprior=-0.5*x1.prior)
+        if np.isnan(y).any():  # posterior not defined - never accepted
+            return np.zeros(1)
         for kk in range(stage):
             y = y + nth_stage_log_proposal_ratio(kk, trypath, invR)
         alpha = min(np.ones(1), np.exp(y)*a2*(a1**(-1)))
-- 
2.43.0


From 50b2b8d52f794b65893cc259c422c5b93623433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:02 +0000
Subject: [PATCH 50/51] fix: the ram method with delayed rejection adapts to
 the acceptance of the first stage

---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 72100d0..dc95424 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -326,6 +326,7 @@ class MCMC:
                     prior_object=self.__prior_object,
                     sos_object=self.__sos_object,
                     custom=self.custom_sampler_output)
+            alpha = new_set.alpha  # acceptance probability that belongs to npar_sample_from_normal
 
             # DELAYED REJECTION
             if self.simulation_options.ntry > 1 and accept == 0:
@@ -366,7 +367,7 @@ class MCMC:
                         chainind=self.__chain_index,
                         u=npar_sample_from_normal,
                         npar=self.parameters.npar,
-                        alpha=new_set.alpha)
+                        alpha=alpha)
 
                 iiadapt = 0  # reset local adaptation index
                 self.__rejected['in_adaptation_interval'] = 0  # reset local rejection index
-- 
2.43.0


From 91ecf3e2babb74ce02b735d215c2f8be241d736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:00 +0000
Subject: [PATCH 51/51] fix: continuing a run of a single simulation does not
 log its row again

---
 pymcmcstat/MCMC.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index dc95424..43d4d0c 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -151,6 +151,7 @@ class MCMC:
                         npar=self.parameters.npar,
                         nsos=self.model_settings.nsos,
                         updatesigma=self.simulation_options.updatesigma)
+                self.__first_to_log = self.__chain_index + 1  # rows from previous run have already been logged
             else:
                 sys.exit('No previous results found.  Set ''use_previous_results'' to ''False''')
         else:
@@ -162,6 +163,7 @@ class MCMC:
                 self.simulation_options.qcov = np.array(res.get('qcovorig', res['qcov']))
 
             self.__chain_index = 0  # start index at zero
+            self.__first_to_log = 0
             self.__custom_index = 0  # elements of custom chains logged so far
             self._initialize_simulation()
             self.__initialize_chains(
@@ -298,8 +300,7 @@ class MCMC:
         iiadapt = 0  # adaptation counter
         iiprint = 0  # print counter
         savecount = 0  # save counter
-        # first chain index to log - rows from previous run have already been logged
-        firstbin = 0 if self.__chain_index == 0 else self.__chain_index + 1
+        firstbin = self.__first_to_log  # first chain index to log
         lastbin = firstbin  # initialize bin counter
         nsimu = self.simulation_options.nsimu
 
-- 
2.43.0

