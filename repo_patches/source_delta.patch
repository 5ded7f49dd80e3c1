From d5ebcb663f536f5b77e49f6472eb967858764e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 01/23] fix: harmonic_balance must not modify the caller's
 embedding circuit

The Thevenin voltages of unexcited signals were overwritten with 1e-10 (and
row/column 0 with 0) in the caller's circuit. This also made
harmonic_balance fail on a locked circuit.
---
 qmix/harmonic_balance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index bb4937f..f7977da 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -79,7 +79,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     num_n = cct.num_n
     npts = cct.vb_npts
 
-    vt = cct.vt
+    vt = cct.vt.copy()  # copy: the values are modified below
     zt = cct.zt
 
     # Harmonic balance isn't required if all zt are equal to zero
-- 
2.43.0


From b9efc5d40e8b3ca17c35cf6ca44d7f183db510e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 02/23] fix: harmonic_balance must not overwrite the caller's
 initial guess

With a single tone or a single harmonic the reshape is a view, so the Newton
updates were written into the array passed as vj_initial.
---
 qmix/harmonic_balance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index f7977da..ebdcc26 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -112,7 +112,8 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     # voltage) will be transformed into a matrix with shape 6 x npts.
 
     # Change format of data from [f, p] to [p] (reduce by one dimension)
-    vj_2d = vj_initial[1:, 1:, :].reshape((num_n, npts))
+    # (copy vj: it is updated in place below, and it may belong to the caller)
+    vj_2d = vj_initial[1:, 1:, :].reshape((num_n, npts)).copy()
     vt_2d = vt[1:, 1:].reshape(num_n)
     zt_2d = zt[1:, 1:].reshape(num_n)
 
-- 
2.43.0


From 28b0e5a4405b8199a56abccd38718d740dd5c33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 03/23] fix: report harmonic balance convergence truthfully

mode='x' derived the convergence flag from the iteration count: a solution
that met the target exactly on the last allowed iteration was reported as not
converged. A NaN error in one signal could also be dropped by max(), so a
result that contains NaN was reported as converged.
---
 qmix/harmonic_balance.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index ebdcc26..f5d80e2 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -160,7 +160,8 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
                 # Check relative error at k
                 abs_error = np.abs(err_all[k, :])
                 rel_error = abs_error / np.abs(vj_2d[k, :])
-                max_rel_error = max(np.max(rel_error), max_rel_error)
+                # (np.maximum, unlike max, never drops a NaN)
+                max_rel_error = np.maximum(np.max(rel_error), max_rel_error)
                 med_rel_error = np.median(abs_error / np.abs(vj_2d[k, :]))
                 good_points = rel_error < stop_rerror
                 finished_points = finished_points & good_points
@@ -189,7 +190,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
             break
 
         # Exit if this is the last iteration
-        if max_rel_error > stop_rerror and iteration == max_it:
+        if iteration == max_it:
             print("*** DID NOT ACHIEVE TARGET ERROR VALUE ***\n")
             break
 
@@ -223,8 +224,8 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     if mode == "o":  # return vj
         return vj_out
     elif mode == "x":  # return vj, number of iterations, and if converged
-        did_not_hit_max_it = iteration != max_it
-        return vj_out, iteration, did_not_hit_max_it
+        converged = bool(max_rel_error <= stop_rerror)
+        return vj_out, iteration, converged
     elif mode == "m":  # return vj and mask
         return vj_out, finished_points
 
-- 
2.43.0


From 1572a424441bc73fe80802a33f8cc2fc954cb3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 04/23] fix: honour the output mode of harmonic_balance when
 all zt are zero

mode='x' and mode='m' returned a bare array instead of the documented tuple.
---
 qmix/harmonic_balance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index f5d80e2..d82a321 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -86,7 +86,12 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     if (zt == 0).all():
         if verbose:
             print("Done.\n")
-        return vt[:, :, None] * np.ones(npts, dtype=complex)
+        vj_out = vt[:, :, None] * np.ones(npts, dtype=complex)
+        if mode == "x":
+            return vj_out, 0, True
+        elif mode == "m":
+            return vj_out, np.ones(npts, dtype=bool)
+        return vj_out
 
     # Check whether any Thevenin voltages are zero (prevents div0 errors) ----
 
-- 
2.43.0


From d93fab2265f9304fe34b3e839c0afaeb94d201dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 05/23] fix: save_info must not round the embedding circuit

Frequencies and voltages were written with 4 decimals and impedances with 2,
so read_circuit could not regenerate the circuit (e.g., vt=1e-5 became 0).
---
 qmix/circuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index fb83274..cb35902 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -524,9 +524,10 @@ class EmbeddingCircuit(object):
 
         """
 
-        str1 = "   f={0}, p={1}\t\t\tfreq = {2:.4f} x {1}\n"
-        str2 = "\tThev. voltage:\t\t{:.4f} V / V_gap\n"
-        str3 = "\tThev. impedance:\t{:.2f} ohms / R_N\n"
+        # Note: no rounding, read_circuit must get back the exact same values
+        str1 = "   f={0}, p={1}\t\t\tfreq = {2} x {1}\n"
+        str2 = "\tThev. voltage:\t\t{} V / V_gap\n"
+        str3 = "\tThev. impedance:\t{} ohms / R_N\n"
 
         with open(filename, 'w') as fout:
             fout.write("Embedding Circuit:\n")
-- 
2.43.0


From 39875697e429e0e347388b80de3e4b4ee35cc5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 06/23] fix: read_circuit must reject damaged or incomplete
 files

A truncated file (interrupted save, full disk) was read without any error:
missing signals silently became zero and a torn value was accepted as is.
---
 qmix/circuit.py | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index cb35902..3a12008 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -592,28 +592,38 @@ def read_circuit(filename):
     Returns:
         qmix.circuit.EmbeddingCircuit: instance of the embedding circuit class
 
+    Raises:
+        ValueError: If the file is damaged or incomplete
+
     """
 
     with open(filename, 'r') as fin:
-        data = fin.readlines()
+        data = fin.read()
+
+    header = re.match(r'Embedding Circuit:\n'
+                      r'\s*Number of tones:\s*(\d+)\n'
+                      r'\s*Number of harmonics:\s*(\d+)\n', data)
+    if header is None:
+        raise ValueError('Not an embedding circuit file: {}'.format(filename))
+    num_f, num_p = int(header.group(1)), int(header.group(2))
 
-    num_f = int(data[1].split()[-1])
-    num_p = int(data[2].split()[-1])
+    # One block for each signal (anything else means a damaged file)
+    block = re.compile(r'\s*f=(\d+),\s*p=(\d+)\s+freq = (\S+) x \d+\n'
+                       r'\s*Thev\. voltage:\s*(\S+) V / V_gap\n'
+                       r'\s*Thev\. impedance:\s*(\S+) ohms / R_N(?:\n|$)')
 
     cct = EmbeddingCircuit(num_f, num_p)
 
-    data = data[3:]
-
-    for i, line in enumerate(data):
-        split_line = line.split()
-        if split_line[0][0] == 'f':
-            f = int(re.search(r'\d+', split_line[0]).group())
-            p = int(re.search(r'\d+', split_line[1]).group())
-            freq = float(split_line[4])
-            vt = complex(data[i + 1].split()[2])
-            zt = complex(data[i + 2].split()[2])
-            cct.freq[f] = freq
-            cct.vt[f, p] = vt
-            cct.zt[f, p] = zt
+    pos = header.end()
+    for f in range(1, num_f + 1):
+        for p in range(1, num_p + 1):
+            match = block.match(data, pos)
+            if match is None or match.group(1, 2) != (str(f), str(p)):
+                msg = 'Embedding circuit file is damaged or incomplete: {} (f={}, p={})'
+                raise ValueError(msg.format(filename, f, p))
+            cct.freq[f] = float(match.group(3))
+            cct.vt[f, p] = complex(match.group(4))
+            cct.zt[f, p] = complex(match.group(5))
+            pos = match.end()
 
     return cct
-- 
2.43.0


From 577f12a7ae0a859de6c731d8b538541a7c8e2660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 07/23] fix: EmbeddingCircuit.vph and igap

vph returned a non-existent attribute (AttributeError), and igap was left as
None when the gap was given as a frequency (fgap).
---
 qmix/circuit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 3a12008..83c96e9 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -231,8 +231,8 @@ class EmbeddingCircuit(object):
         # Normal-state resistance
         if rn is not None:
             self.rn = float(rn)
-        if vgap is not None and rn is not None:
-            self.igap = vgap / rn
+        if self.vgap is not None and self.rn is not None:
+            self.igap = self.vgap / self.rn
 
         # Initialize embedding circuit
         self.freq = np.zeros((num_f + 1), dtype=float)
@@ -576,7 +576,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        return self.cct
+        return self.freq
 
 
 def read_circuit(filename):
-- 
2.43.0


From d5d99157e29a0a1ea8b30ecb6e21b34ca84b6bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 08/23] fix: set_freq(units='norm') must not require the gap
 frequency

str.lower was compared without being called, so the check always applied.
---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 83c96e9..bfa97ef 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -439,7 +439,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        if units.lower != 'norm':
+        if units.lower() != 'norm':
             assert self.fgap is not None, 'Gap frequency must be defined!'
 
         if units.lower() == 'hz':
-- 
2.43.0


From 61dfcce39a7fae6576fa541290ad74afb21cba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 09/23] fix: result folders may be created concurrently

Several processes that plot into the same results folder raced between
os.path.exists and os.makedirs, and the loser failed with FileExistsError.
---
 qmix/exp/exp_data.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 00f21c0..507bc4b 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -474,8 +474,7 @@ class DCData(object):
             folder = os.path.join(fig_folder, sub_folder)
 
         # Make sure folder exists, create it if not
-        if not os.path.exists(folder):
-            os.makedirs(folder)
+        os.makedirs(folder, exist_ok=True)
 
         # Names for figures
         fig1 = os.path.join(folder, 'dciv.png')
@@ -1420,16 +1419,11 @@ class PumpedData(object):
         tn_folder = os.path.join(fig_folder, tn_folder)
 
         # Make sure folders exist, create them if not
-        if not os.path.exists(iv_folder):
-            os.makedirs(iv_folder)
-        if not os.path.exists(if_folder):
-            os.makedirs(if_folder)
-        if not os.path.exists(zr_folder):
-            os.makedirs(zr_folder)
-        if not os.path.exists(zs_folder):
-            os.makedirs(zs_folder)
-        if not os.path.exists(tn_folder):
-            os.makedirs(tn_folder)
+        os.makedirs(iv_folder, exist_ok=True)
+        os.makedirs(if_folder, exist_ok=True)
+        os.makedirs(zr_folder, exist_ok=True)
+        os.makedirs(zs_folder, exist_ok=True)
+        os.makedirs(tn_folder, exist_ok=True)
 
         # Names for figures
         f = str(self.freq)
@@ -1540,8 +1534,7 @@ def plot_overall_results(dciv, data_list, fig_folder, vmax_plot=4.,
     # Initialize results directory (if needed)
     for sub_folder in _file_structure.values():
         path = os.path.join(fig_folder, sub_folder)
-        if not os.path.exists(path):
-            os.makedirs(path)
+        os.makedirs(path, exist_ok=True)
 
     plotparam = dict(ls='--', marker='o')
 
-- 
2.43.0


From 0fafd1477f7eb390a62748af7fcbf1a63c916e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 10/23] fix: initialize_dir must create the folders inside
 fig_folder

The path was concatenated without a separator, so initialize_dir('results')
created 'resultsdciv', 'resultscsv', etc. Also tolerate another process
creating the folder at the same time.
---
 qmix/exp/exp_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 507bc4b..6f8f01f 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1941,7 +1941,8 @@ def initialize_dir(fig_folder):  # pragma: no cover
     folder_list += list(_file_structure.values())
 
     for folder in folder_list:
-        if not os.path.exists(fig_folder + folder):
-            os.makedirs(fig_folder + folder)
+        path = os.path.join(fig_folder, folder)
+        if not os.path.exists(path):
+            os.makedirs(path, exist_ok=True)
             print('   - Created: ' + folder)
     print(" ")
-- 
2.43.0


From 0d986ab4481c9f0a38d0be9d9545bd7ec8faf149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 11/23] fix: I-V curve models must not change NumPy's global
 error handling

np.seterr(over='ignore') stayed in effect for the caller's whole program.
---
 qmix/mathfn/ivcurve_models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index a9ed2b1..584cf3a 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -101,6 +101,7 @@ def polynomial(voltage, order=50):
     return current
 
 
+@np.errstate(over='ignore')
 def exponential(voltage, vgap=2.8e-3, rn=14., rsg=300., agap=4e4, model='fixed'):
     """The exponential I-V curve model that is used in some papers from
     Chalmers.
@@ -138,7 +139,6 @@ def exponential(voltage, vgap=2.8e-3, rn=14., rsg=300., agap=4e4, model='fixed')
     v_v = voltage * vgap  # voltage in units [V]
 
     if model.lower() == 'fixed' or model.lower() == 'corrected':
-        np.seterr(over='ignore')
         i_a = (
                # Sub-gap resistance
                v_v / (rsg * 2) * (1 / (1 + np.exp(-agap * (v_v + vgap)))) -
@@ -150,7 +150,6 @@ def exponential(voltage, vgap=2.8e-3, rn=14., rsg=300., agap=4e4, model='fixed')
                v_v / rn * (1 / (1 + np.exp(-agap * (v_v - vgap)))))
         return i_a / igap
     elif model.lower() == 'original':
-        np.seterr(over='ignore')
         i_a = (
                # Sub-gap resistance
                v_v / rsg * (1 / (1 + np.exp(-agap * (v_v + vgap)))) +
@@ -163,6 +162,7 @@ def exponential(voltage, vgap=2.8e-3, rn=14., rsg=300., agap=4e4, model='fixed')
         raise ValueError("Model not recognized.")
 
 
+@np.errstate(over='ignore')
 def expanded(voltage, vgap=2.8e-3, rn=14., rsg=5e2, agap=4e4, a0=1e4,
              ileak=5e-6, vnot=2.85e-3, inot=1e-5, anot=2e4, ioff=1e-5):
     """My "expanded" I-V curve model.
@@ -199,7 +199,6 @@ def expanded(voltage, vgap=2.8e-3, rn=14., rsg=5e2, agap=4e4, a0=1e4,
     v_v = voltage * vgap
     igap = vgap / rn
 
-    np.seterr(over='ignore')
     i_a = (
         # Leakage current
         ileak * 2 * (1 / (1 + np.exp(-a0 * v_v))) -
-- 
2.43.0


From 7d0aebd1c703801ce320e46ae7fb51912042ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 12/23] fix: plot_if_spectrum must load the spectrum files

It passed the file name to if_response, which only accepts arrays
(ValueError for every file), and failed when fig_folder is None.
---
 qmix/exp/exp_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 6f8f01f..1dffe73 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1470,7 +1470,7 @@ def plot_if_spectrum(data_folder, fig_folder=None, figsize=None):  # pragma: no
         print(" - {}".format(filename))
         base = filename.split('_')[0][1:]
 
-        freq, t_n, p_hot_db, p_cold_db = if_response(if_file)
+        freq, t_n, p_hot_db, p_cold_db = if_response(np.genfromtxt(if_file, skip_header=1, usecols=(0, 1, 2)))
 
         fig2, ax2 = plt.subplots(figsize=figsize)
         ax2.plot(freq, t_n)
@@ -1493,6 +1493,9 @@ def plot_if_spectrum(data_folder, fig_folder=None, figsize=None):  # pragma: no
     ax1.set_ylim([0, 500])
     ax1.set_xlim([0, 20])
     ax1.legend()
+    if fig_folder is None:
+        print("")
+        return
     fig1.savefig(os.path.join(fig_folder, 'if_spectra.png'), **_plot_params)
     ax1.set_ylim([0, 2000])
     fig1.savefig(os.path.join(fig_folder, 'if_spectra2.png'), **_plot_params)
-- 
2.43.0


From 3972ba4378c95aa5c676cd4e10a3525974f47a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 13/23] fix: plot_if_spectrum must not depend on the directory
 listing order

glob returns files in arbitrary order, which decides the order of the curves
and which file ends up in the last figure.
---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 1dffe73..7fb6cd7 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1459,7 +1459,7 @@ def plot_if_spectrum(data_folder, fig_folder=None, figsize=None):  # pragma: no
     pstr = "\nImporting and plotting IF data:"
     cprint(pstr, 'HEADER')
 
-    if_spectra_files = glob.glob(os.path.join(data_folder, '*comb*.dat'))
+    if_spectra_files = sorted(glob.glob(os.path.join(data_folder, '*comb*.dat')))
 
     fig1, ax1 = plt.subplots(figsize=figsize)
     fig2, ax2 = plt.subplots(figsize=figsize)
-- 
2.43.0


From 042d4f89af854f8abe7c4bc1a94329a8190942d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 14/23] fix: check_hb_error must judge the circuit that
 harmonic_balance solves

harmonic_balance replaces zero Thevenin voltages by MIN_VT. check_hb_error used
the unmodified circuit and rejected converged solutions with unexcited signals.
---
 qmix/harmonic_balance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index d82a321..bf134a3 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -267,9 +267,13 @@ def check_hb_error(vj_check, cct, resp, num_b=15, stop_rerror=0.001):
     # Tunnelling current for all tones/harmonics (see below)
     ij_all = _qtcurrent_all_freq(vj_check, cct, resp, num_b)
 
+    # same embedding circuit that harmonic_balance solves: no zero voltages
+    vt = cct.vt.copy()
+    vt[np.abs(vt) < MIN_VT] = MIN_VT
+
     for f in range(1, cct.num_f + 1):
         for p in range(1, cct.num_p + 1):
-            error_fp = cct.vt[f, p] - \
+            error_fp = vt[f, p] - \
                        cct.zt[f, p] * ij_all[f, p, :] - \
                        vj_check[f, p, :]
             max_rel_error = np.max(np.abs(error_fp) /
-- 
2.43.0


From 9291d86e3a42d5359bf50401b81faf1b97fa66ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 15/23] fix: set_available_power must not modify the caller's
 array

---
 qmix/circuit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index bfa97ef..0c7f584 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -356,15 +356,15 @@ class EmbeddingCircuit(object):
         if units.lower() == 'w':
             pass
         elif units.lower() == 'mw':
-            power *= sc.milli
+            power = power * sc.milli
         elif units.lower() == 'uw':
-            power *= sc.micro
+            power = power * sc.micro
         elif units.lower() == 'nw':
-            power *= sc.nano
+            power = power * sc.nano
         elif units.lower() == 'pw':
-            power *= sc.pico
+            power = power * sc.pico
         elif units.lower() == 'fw':
-            power *= sc.femto
+            power = power * sc.femto
         elif units.lower() == 'dbm':
             power = 10 ** (power / 10) * 1e-3
         elif units.lower() == 'dbw':
-- 
2.43.0


From ca8e30857347d4a4d331c77b13950fe54d8147e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 16/23] fix: import IF data recorded as integers

---
 qmix/exp/if_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/if_data.py b/qmix/exp/if_data.py
index 2488ebf..f7ba17f 100644
--- a/qmix/exp/if_data.py
+++ b/qmix/exp/if_data.py
@@ -394,10 +394,10 @@ def _load_if(ifdata, dc, **kwargs):
     v_fmt = kwargs.get('v_fmt', PARAMS['v_fmt'])
 
     # Import raw IF data
-    ifdata = ifdata.copy()
     assert isinstance(ifdata, np.ndarray), 'IF data should be a Numpy array.'
     assert ifdata.ndim == 2, 'IF data should be 2-dimensional.'
     assert ifdata.shape[1] == 2, 'IF data should have 2 columns.'
+    ifdata = ifdata.astype(float)  # copy (the readings may be integers)
 
     # Units for voltage
     ifdata[:, 0] *= _vfmt_dict[v_fmt]
-- 
2.43.0


From de35519cb8d5d16d156ef8244a82277f4c97753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 17/23] fix: qtcurrent must reject a response function matrix
 that is too small

---
 qmix/qtcurrent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmix/qtcurrent.py b/qmix/qtcurrent.py
index 7bc13d7..4721ec7 100644
--- a/qmix/qtcurrent.py
+++ b/qmix/qtcurrent.py
@@ -110,6 +110,7 @@ def qtcurrent(vj, cct, resp, freq_list, num_b=15, verbose=True, resp_matrix=None
         resp_matrix = interpolate_respfn(cct, resp, num_b)
     else:
         assert resp_matrix.ndim == num_f + 1
+        assert all(n >= 2 * b + 1 for n, b in zip(resp_matrix.shape, nb_list))
         assert resp_matrix.shape[-1] == npts
 
     # Call the correct function depending on the number of tones---------------
-- 
2.43.0


From e4b72a645113a173a4f2aabefeb3885a7e05b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 18/23] fix: plot_if_noise adjusts its own figure instead of
 the current one

---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 7fb6cd7..f715615 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -413,7 +413,7 @@ class DCData(object):
         else:
             ax1, ax2 = ax
             fig = ax1.get_figure()
-        plt.subplots_adjust(hspace=0., wspace=0.)
+        fig.subplots_adjust(hspace=0., wspace=0.)
 
         # Plot DC I-V curve
         ax1.plot(v_mv, i_ua, label='I-V curve')
-- 
2.43.0


From 32e10d005e9ed5b74dfc36c75f86f29bb5b6cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 19/23] fix: plot_error_surface adds its colour bar without
 involving the current figure

---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index f715615..4eec6f7 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1244,7 +1244,7 @@ class PumpedData(object):
             fig = ax.get_figure()
         pc = ax.pcolor(xx, yy, zz.T, cmap='viridis', shading='auto')
         # Add color bar
-        cbar = plt.colorbar(pc, ax=ax)
+        cbar = fig.colorbar(pc, ax=ax)
         cbar.ax.set_ylabel(r'$\log_{10}(\varepsilon)$', rotation=90)
         # Left or right half of plot?
         zt_re_mid = (zt_real[0] + zt_real[-1]) / 2.
-- 
2.43.0


From c9e7202ac94b5a442264603f465185679f1ca778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 20/23] fix: plot_ivif draws the IF data into the second axes
 it was given

---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 4eec6f7..44532d1 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -922,6 +922,7 @@ class PumpedData(object):
 
         if ax is None:
             fig, ax1 = plt.subplots()
+            ax2 = ax1.twinx()
         else:
             ax1, ax2 = ax
             fig = ax1.get_figure()
@@ -940,7 +941,6 @@ class PumpedData(object):
 
         # Plot IF data
         mv = self.if_hot[:, 0] * self.vgap * 1e3
-        ax2 = ax1.twinx()
         mask = self.if_hot[:, 1] != 0
         ax2.plot(mv[mask], self.if_hot[mask, 1], '#f96b6b', label='Hot')
         mask = self.if_cold[:, 1] != 0
-- 
2.43.0


From acfaa9df999a4709ce72a91fe36301ece0564bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 21/23] fix: plot_if_spectrum closes its figures and smooths
 every spectrum, not only the last

---
 qmix/exp/exp_data.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 44532d1..57a7183 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1472,21 +1472,25 @@ def plot_if_spectrum(data_folder, fig_folder=None, figsize=None):  # pragma: no
 
         freq, t_n, p_hot_db, p_cold_db = if_response(np.genfromtxt(if_file, skip_header=1, usecols=(0, 1, 2)))
 
-        fig2, ax2 = plt.subplots(figsize=figsize)
-        ax2.plot(freq, t_n)
+        t_n_smooth = gauss_conv(t_n, sigma=1)
         ax1.plot(freq, t_n, label="{} GHz".format(base))
-        ax2.plot(freq, gauss_conv(t_n, sigma=1), label="{} GHz".format(base))
-        ax2.set_ylabel('Noise Temperature (K)')
-        ax2.set_xlabel('Frequency (GHz)')
-        ax2.set_ylim([0, 400])
-        ax2.set_xlim([0, 20])
+        ax2.plot(freq, t_n_smooth, label="{} GHz".format(base))
+
+        fig3, ax3 = plt.subplots(figsize=figsize)
+        ax3.plot(freq, t_n)
+        ax3.plot(freq, t_n_smooth, label="{} GHz".format(base))
+        ax3.set_ylabel('Noise Temperature (K)')
+        ax3.set_xlabel('Frequency (GHz)')
+        ax3.set_ylim([0, 400])
+        ax3.set_xlim([0, 20])
         if fig_folder is not None:
             figname = os.path.join(fig_folder, filename)
-            fig2.savefig(figname + '.png', **_plot_params)
-            ax2.set_ylim([0, 2000])
-            fig2.savefig(figname + '2.png', **_plot_params)
+            fig3.savefig(figname + '.png', **_plot_params)
+            ax3.set_ylim([0, 2000])
+            fig3.savefig(figname + '2.png', **_plot_params)
+            plt.close(fig3)
         else:
-            fig2.show()
+            fig3.show()
 
     ax1.set_ylabel('Noise Temperature (K)')
     ax1.set_xlabel('Frequency (GHz)')
@@ -1499,6 +1503,7 @@ def plot_if_spectrum(data_folder, fig_folder=None, figsize=None):  # pragma: no
     fig1.savefig(os.path.join(fig_folder, 'if_spectra.png'), **_plot_params)
     ax1.set_ylim([0, 2000])
     fig1.savefig(os.path.join(fig_folder, 'if_spectra2.png'), **_plot_params)
+    plt.close(fig1)
 
     ax2.set_ylabel('Noise Temperature (K)')
     ax2.set_xlabel('Frequency (GHz)')
@@ -1510,6 +1515,7 @@ def plot_if_spectrum(data_folder, fig_folder=None, figsize=None):  # pragma: no
     ax2.set_ylim([0, 2000])
     fig2.savefig(os.path.join(fig_folder, 'if_spectra_smooth2.png'),
                  **_plot_params)
+    plt.close(fig2)
 
     print("")
 
-- 
2.43.0


From 698110898fe790c9d317394c2d01fed4ce0884ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:07 +0000
Subject: [PATCH 22/23] fix: plot_overall_results works for fewer than four
 measurements and for any order of them

---
 qmix/exp/exp_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 57a7183..c96cb46 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1696,9 +1696,13 @@ def plot_overall_results(dciv, data_list, fig_folder, vmax_plot=4.,
 
     fig, ax = plt.subplots(figsize=figsize)
     freq_t = np.linspace(np.min(freq), np.max(freq), 1001)
-    sp_1 = UnivariateSpline(freq, t_n)
     ax.plot(freq, t_n, 'o', color=_blue)
-    ax.plot(freq_t, sp_1(freq_t), '--', color=_blue)
+    spline_order = min(3, len(np.unique(freq)) - 1)
+    if spline_order > 0:
+        order = np.argsort(freq, kind='stable')
+        sp_1 = UnivariateSpline(np.array(freq)[order], t_n[order],
+                                k=spline_order)
+        ax.plot(freq_t, sp_1(freq_t), '--', color=_blue)
     ax.set_xlabel('Frequency (GHz)')
     ax.set_ylabel('Noise Temperature (K)')
     if f_range is not None:
-- 
2.43.0


From d0fbac469360f2510d15afcfba748c70b6289153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:07 +0000
Subject: [PATCH 23/23] fix: PumpedData.plot_all works for measurements without
 IF data

---
 qmix/exp/exp_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index c96cb46..6a93c74 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1436,8 +1436,9 @@ class PumpedData(object):
 
         # Generate plots
         self.plot_iv(fig1, **kw)
-        self.plot_ivif(fig2, **kw)
-        self.plot_noise_temp(fig5, **kw)
+        if self.if_hot is not None:
+            self.plot_ivif(fig2, **kw)
+            self.plot_noise_temp(fig5, **kw)
         # self.plot_gain_noise_temp(fig6, **kw)
         if self.zt is not None:
             self.plot_error_surface(fig3)
-- 
2.43.0

