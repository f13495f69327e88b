From 9cbe63b9c1fba4a2e79905145f040956b3364621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 01/38] fix: mode sorting duplicated and lost modes

---
 bicycleparameters/bicycle.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 55f516a..6fa0de0 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -246,11 +246,8 @@ def sort_eigenmodes(evals, evecs):
                 xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # never pick an eigenvalue that has already been used
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
@@ -319,11 +316,8 @@ def sort_modes(evals, evecs):
                     xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # never pick an eigenvalue that has already been used
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
-- 
2.43.0


From 37a4c598f2deaa7b575246199506ee1ffb80db3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 02/38] fix: benchmark_par_to_canonical changed the dictionary
 it was given

---
 bicycleparameters/bicycle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 6fa0de0..04db4b5 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -112,9 +112,9 @@ def benchmark_par_to_canonical(p):
             p['mF']*p['rF']**2)
     ITxz = (p['IBxz'] + p['IHxz'] - p['mB']*p['xB']*p['zB'] -
             p['mH']*p['xH']*p['zH'] + p['mF']*p['w']*p['rF'])
-    p['IRzz'] = p['IRxx']
-    p['IFzz'] = p['IFxx']
-    ITzz = (p['IRzz'] + p['IBzz'] + p['IHzz'] + p['IFzz'] +
+    IRzz = p['IRxx']
+    IFzz = p['IFxx']
+    ITzz = (IRzz + p['IBzz'] + p['IHzz'] + IFzz +
             p['mB']*p['xB']**2 + p['mH']*p['xH']**2 + p['mF']*p['w']**2)
 
     mA = p['mH'] + p['mF']
@@ -125,7 +125,7 @@ def benchmark_par_to_canonical(p):
             p['mF']*(p['rF'] + zA)**2)
     IAxz = (p['IHxz'] - p['mH']*(p['xH'] - xA)*(p['zH'] - zA) + p['mF'] *
             (p['w'] - xA)*(p['rF'] + zA))
-    IAzz = (p['IHzz'] + p['IFzz'] + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
+    IAzz = (p['IHzz'] + IFzz + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
             (p['w'] - xA)**2)
     uA = (xA - p['w'] - p['c'])*umath.cos(p['lam']) - zA*umath.sin(p['lam'])
     IAll = (mA*uA**2 + IAxx*umath.sin(p['lam'])**2 +
-- 
2.43.0


From 813304878aed3f9f96e4d8be7bf6817973664e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 03/38] fix: periods were glued to a last line without a
 newline

---
 bicycleparameters/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index dcb3b80..475ab09 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -206,6 +206,8 @@ def write_periods_to_file(pathToRawFile, mp):
         if not line.startswith('T'):
             baseData += line
     f.close()
+    if baseData and not baseData.endswith('\n'):
+        baseData += '\n'
     # add the periods to the base data
     periodKeys = [x for x in mp.keys() if x.startswith('T')]
     periodKeys.sort()
-- 
2.43.0


From b8c5b5c80564feb7ae6fd3ea65ea0684470a05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 04/38] fix: file names piled up when several parameter sets
 were saved

---
 bicycleparameters/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 9e6f175..b15d5de 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -203,11 +203,11 @@ class Bicycle(object):
 
         if filetype == 'text':
             for pset in psets:
-                fileName = fileName + pset + '.txt'
-                pathToTxtFile = os.path.join(pathToParDir, fileName)
+                psetFileName = fileName + pset + '.txt'
+                pathToTxtFile = os.path.join(pathToParDir, psetFileName)
                 io.write_parameter_text_file(pathToTxtFile, parameters[pset])
                 if self.hasRider:
-                    pathToCombFile = os.path.join(pathToCombDir, fileName)
+                    pathToCombFile = os.path.join(pathToCombDir, psetFileName)
                     io.write_parameter_text_file(pathToCombFile,
                                                  self.parameters[pset])
 
-- 
2.43.0


From 0c7473a960a9d24aa2cd4999ea0a737999519e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 05/38] fix: blank lines made parameter files unreadable

---
 bicycleparameters/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 475ab09..2255d0d 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -56,11 +56,12 @@ def load_parameter_text_file(pathToFile):
     # parse the text file
     with open(pathToFile, 'r') as f:
         for line in f:
-            # ignore lines that start with a hash
-            if line[0] != '#':
-                # remove any whitespace characters and comments at the end of
-                # the line, then split the right and left side of the equality
-                equality = line.strip().split('#')[0].split('=')
+            # remove any comment and surrounding whitespace characters
+            line = line.split('#')[0].strip()
+            # ignore blank lines and lines that only hold a comment
+            if line:
+                # split the right and left side of the equality
+                equality = line.split('=')
                 # ['a ', ' 0.1 +/- 0.05 , 0.09 +/- 0.05']
                 valList = equality[1].strip().split(',')
                 # ['0.1 +/- 0.05 ', ' 0.09 +/- 0.05']
-- 
2.43.0


From 41440f5dda815eeafe451f8d37d620c58c70217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 06/38] fix: parameters could not be written to the working
 directory

---
 bicycleparameters/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 2255d0d..1efdf0c 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -136,7 +136,7 @@ def write_parameter_text_file(pathToTxtFile, parDict):
 
     # make the Parameters directory if it doesn't exist
     head, tail = os.path.split(pathToTxtFile)
-    if not os.path.isdir(head):
+    if head and not os.path.isdir(head):
         print("Created direcotry %s" % head)
         os.makedirs(head)
 
-- 
2.43.0


From 86ac0840adb35a4c2e4ee22ff74f9b5583a33cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 07/38] fix: Moore2019 sets could not be converted to
 Meijaard2007WithFeedback

---
 bicycleparameters/parameter_sets.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 7f2d7f9..81888a9 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1138,9 +1138,7 @@ class Moore2019ParameterSet(ParameterSet):
             # Moore2019 always includes the rider
             return Meijaard2007ParameterSet(b, True)
         elif name == 'Meijaard2007WithFeedback':
-            b = _convert_principal_to_benchmark(self.parameters)
-            # Moore2019 always includes the rider
-            par_set = Meijaard2007WithFeedbackParameterSet(b, True)
+            par_set = self.to_parameterization('Meijaard2007')
             return par_set.to_parameterization(name)
         else:
             msg = '{} is not an available parameter set'
-- 
2.43.0


From 958dde6b85ae6ec4d7c44c5f69abdcc94d5bbccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 08/38] fix: converting Moore2019 sets needed parameters that
 are not required

---
 bicycleparameters/parameter_sets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 81888a9..4d25a4b 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1134,7 +1134,9 @@ class Moore2019ParameterSet(ParameterSet):
         if name == self.parameterization:
             return self
         elif name == 'Meijaard2007':
-            b = _convert_principal_to_benchmark(self.parameters)
+            p = self._calc_derived_params()
+            p.update(self.parameters)
+            b = _convert_principal_to_benchmark(p)
             # Moore2019 always includes the rider
             return Meijaard2007ParameterSet(b, True)
         elif name == 'Meijaard2007WithFeedback':
-- 
2.43.0


From 4fe2f070915713945e337df7a17f998240db7cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 09/38] fix: rider lean simulations changed the initial
 conditions passed in

---
 bicycleparameters/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index fa104f3..0496613 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1457,7 +1457,11 @@ class MooreRiderLean2012Model(_Model):
         par, array_keys, array_len = self._parse_parameter_overrides(
             **parameter_overrides)
 
+        if array_keys:
+            raise ValueError('Can only simulate with fixed parameters.')
+
         # u6 has to be consistent with v
+        initial_conditions = np.array(initial_conditions, dtype=float)
         initial_conditions[9] = -par['v']/par['rr']
 
         return super().simulate(times, initial_conditions,
@@ -1512,9 +1516,6 @@ class MooreRiderLean2012Model(_Model):
         par, array_keys, array_len = self._parse_parameter_overrides(
             **parameter_overrides)
 
-        # u6 has to be consistent with v
-        initial_conditions[9] = -par['v']/par['rr']
-
         res, inputs = self.simulate(times, initial_conditions,
                                     input_func=input_func,
                                     **parameter_overrides)
-- 
2.43.0


From 4c6dd225f2f87ac8da8bfa077bfd67d8d4e5586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 10/38] fix: vec_angle failed on the column vectors it is meant
 for

---
 bicycleparameters/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 2846326..676e142 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -315,8 +315,8 @@ def vec_angle(v1, v2):
     angle : float
         (radians) interior angle between v1 and v2.
     '''
-    return np.arccos(float(np.dot(v1.T, v2)) / (np.linalg.norm(v1) *
-                                                np.linalg.norm(v2)))
+    return np.arccos(float(np.dot(v1.T, v2).item()) / (np.linalg.norm(v1) *
+                                                       np.linalg.norm(v2)))
 
 
 def vec_project(vec, direction):
-- 
2.43.0


From 61004b65e13afefd7a9b0cf5860ebdeacb00911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 11/38] fix: vec_project did not project and failed on
 direction vectors

---
 bicycleparameters/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 676e142..4d9cd97 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -343,7 +343,7 @@ def vec_project(vec, direction):
     if type(direction) == int:
         unitdir = np.zeros(3)
         unitdir[direction] = 1
-    elif type(direction) == np.array:
+    else:
         unitdir = direction / np.linalg.norm(direction)
-    proj = vec - np.dot(vec, unitdir)
+    proj = vec - np.dot(vec, unitdir) * unitdir
     return proj.reshape((3, 1))
-- 
2.43.0


From 880d316462252940a2d702c94749917dfc50e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 12/38] fix: two link angles were wrong when the far angle is
 obtuse

---
 bicycleparameters/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 4d9cd97..5c3b4bb 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -154,7 +154,7 @@ def calc_two_link_angles(L1, L2, D):
     '''
 
     theta1 = np.arccos((L1**2 + D**2 - L2**2) / (2.0 * L1 * D))
-    theta2 = theta1 + np.arcsin(L1 / L2 * np.sin(theta1))
+    theta2 = theta1 + np.arccos((L2**2 + D**2 - L1**2) / (2.0 * L2 * D))
 
     return theta1, theta2
 
-- 
2.43.0


From d858f6268b23b0297a6f54819a3c2086cfe9ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 13/38] fix: YAML files of sets with numpy floats could not be
 loaded

---
 bicycleparameters/parameter_sets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 4d25a4b..f9e20ec 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -186,7 +186,8 @@ class ParameterSet(ABC):
             'parameterization': self.parameterization,
             'parameters': '',
             'rider': None,
-            'values': self.parameters,
+            'values': {k: float(v) if isinstance(v, float) else v
+                       for k, v in self.parameters.items()},
         }
         with open(fname, 'w') as f:
             yaml.dump(data, f)
-- 
2.43.0


From 7ae2ca80b50190c48f15403509f4bb03d0c07fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 14/38] fix: includes_rider was lost in YAML files

---
 bicycleparameters/parameter_sets.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index f9e20ec..a98fe7e 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -185,7 +185,7 @@ class ParameterSet(ABC):
             'description': '',
             'parameterization': self.parameterization,
             'parameters': '',
-            'rider': None,
+            'rider': getattr(self, 'includes_rider', None),
             'values': {k: float(v) if isinstance(v, float) else v
                        for k, v in self.parameters.items()},
         }
@@ -1709,6 +1709,14 @@ class Moore2012ParameterSet(ParameterSet):
         self.includes_rider = includes_rider
         self._generate_body_colors()
 
+    @classmethod
+    def _from_yaml(cls, path_to_file):
+
+        with open(os.path.join(path_to_file), 'r') as f:
+            yaml_data = yaml.load(f, Loader=yaml.FullLoader)
+
+        return cls(yaml_data['values'], yaml_data['rider'])
+
 
 class MooreRiderLean2012ParameterSet(ParameterSet):
     """Represents the parameters of the Carvallo-Whipple model with a leaning
-- 
2.43.0


From ce38d5194b64f7579884b6d4a52dfb5ad1cd3c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 15/38] fix: the app truncated the steer axis tilt to whole
 degrees

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index ed1611e..f605498 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -314,7 +314,7 @@ def populate_wheel_data(value, n_clicks):
     lamD = data[2]
     radians = lamD.get('data')
     degrees = np.rad2deg(radians)
-    data[2] = {'data': int(degrees)}
+    data[2] = {'data': float(degrees)}
 
     for c, d in zip(genLabels, data):
         zipped = {}
-- 
2.43.0


From 0d3f66c128448d12be8b04fd4d009ee1edf01858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 16/38] fix: rendering a table changed the table

---
 bicycleparameters/tables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index aa0c4d6..6a35737 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -81,12 +81,12 @@ class Table():
 
         """
 
-        table = self.tableData
+        table = [row[:] for row in self.tableData]
 
         # add the math directive if using latex
         if self.latex:
             for i, row in enumerate(table):
-                self.tableData[i][0] = ':math:`' + row[0] + '`'
+                table[i][0] = ':math:`' + row[0] + '`'
 
         # add a sub header
         table.insert(0, ['Variable'])
-- 
2.43.0


From c11af285f40d80fb972f0e02e26385b324868af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 17/38] fix: modal controllability failed for scalar parameters

---
 bicycleparameters/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 0496613..a02db03 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -895,7 +895,8 @@ class Meijaard2007Model(_Model):
 
         _, B = self.form_state_space_matrices(**parameter_overrides)
         evals, evecs = self.calc_eigen(left=True, **parameter_overrides)
-        evals, evecs = sort_eigenmodes(evals, evecs)
+        if len(evals.shape) == 2:  # array version
+            evals, evecs = sort_eigenmodes(evals, evecs)
 
         def mod_cont(q, b, acute=True):
             """Returns the modal controllability value of the eigenvector q and
-- 
2.43.0


From 3d6b5298f61c3dcf69e91759ed628fe113b074e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 18/38] fix: uround failed for uncertainties of zero or above
 one

---
 bicycleparameters/tables.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index 6a35737..eef2530 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -1,4 +1,4 @@
-from math import ceil
+from math import ceil, floor, log10
 
 
 class Table():
@@ -222,8 +222,6 @@ def uround(value):
 
     2.4564+/-0.0004
 
-    This probably doesn't work for weird cases like large uncertainties.
-
     '''
     try:
     # grab the nominal value and the uncertainty
@@ -232,25 +230,14 @@ def uround(value):
         s = str(value)
     else:
         uncert = value.std_dev
-        if abs(nom) < 1e-15:
-            s = '0.0+/-0.0'
+        if uncert == 0.0:
+            s = str(nom) + '+/-0.0'
         else:
-            # convert the uncertainty to a string
-            s = '%.14f' % uncert
-            # find the first non-zero character
-            for j, number in enumerate(s):
-                if number == '0' or number == '.':
-                    pass
-                else:
-                    digit = j
-                    break
-            newUncert = round(uncert, digit - 1)
-            newUncertStr = ('%.' + str(digit - 1) + 'f') % newUncert
-            newNom = round(nom, len(newUncertStr) - 2)
-            newNomStr = ('%.' + str(digit - 1) + 'f') % newNom
-            diff = len(newUncertStr) - len(newNomStr)
-            if diff > 0:
-                s = newNomStr + int(diff) * '0' + '+/-' + newUncertStr
-            else:
-                s = newNomStr + '+/-' + newUncertStr
+            # the decimal place of the leading digit of the uncertainty
+            digit = -int(floor(log10(uncert)))
+            newUncert = round(uncert, digit)
+            newUncertStr = ('%.' + str(max(digit, 0)) + 'f') % newUncert
+            newNom = round(nom, digit)
+            newNomStr = ('%.' + str(max(digit, 0)) + 'f') % newNom
+            s = newNomStr + '+/-' + newUncertStr
     return s
-- 
2.43.0


From f6a89967635d5562e9ff571c15d9de9c3f7bbe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 19/38] fix: the plotly eigenvalue plot failed without a stable
 speed

---
 bicycleparameters/main.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index b15d5de..c394225 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1411,9 +1411,7 @@ class Bicycle(object):
                                   max(speeds[np.real(cap['evals']) < 0]),
                                   max(speeds[np.real(wea1) < 0])])
             except:  # TODO : Add explicit exception
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
+                v_start_stab, v_end_stab = np.inf, -np.inf
             if (v_start_stab > v_end_stab):
                 fig.add_annotation(x=0.5*max(speeds), y=9,
                                    text="No stability region",
-- 
2.43.0


From 88512a0fb799cddf1b0ce681e6b729cefb2ca0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 20/38] fix: principal axes were not perpendicular for equal
 principal moments

---
 bicycleparameters/inertia.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index d172c09..229840f 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -210,10 +210,12 @@ def principal_axes(I):
         The rotation matrix.
 
     '''
-    Ip, C = np.linalg.eig(I)
-    indices = np.argsort(Ip)
-    Ip = Ip[indices]
-    C = C.T[indices]
+    # the axes are perpendicular also if principal moments are equal
+    Ip, C = np.linalg.eigh(I)
+    C = C.T
+    # point the y axis and the axes in the xz plane along positive y and z
+    col = np.where(np.abs(C[:, 1]) > np.abs(C[:, 2]), C[:, 1], C[:, 2])
+    C = np.where(col < 0.0, -1.0, 1.0)[:, np.newaxis] * C
     return Ip, C
 
 
-- 
2.43.0


From 797fa168132dc4d4053f18dfb21bb767633731f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 21/38] fix: rider lean eigenvectors were wrong when A held
 round off

numpy.linalg.eig balances the matrix first; entries of 1e-33 where the
linearisation is zero were scaled up and most eigenvectors did not
satisfy A v = lambda v.
---
 bicycleparameters/models.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index a02db03..5ddd883 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -11,6 +11,14 @@ from dtk.bicycle import pitch_from_roll_and_steer
 from .bicycle import benchmark_par_to_canonical, ab_matrix, sort_eigenmodes
 
 
+def _remove_round_off(mat):
+    """Returns the matrix with exact zeros in place of the entries that are
+    only round off. Balancing the matrix in :func:`numpy.linalg.eig` would
+    scale these entries up and give vectors that are not eigenvectors."""
+    tiny = np.finfo(float).eps*np.max(np.abs(mat))
+    return np.where(np.abs(mat) <= tiny, 0.0, mat)
+
+
 class _Model(abc.ABC):
     """A model is a set of differential algebraic equations in time that have:
     constants and time varying (coordinates, speeds, and exogenous inputs).
@@ -132,12 +140,12 @@ class _Model(abc.ABC):
             for i, Ai in enumerate(A):
                 if left:
                     Ai = np.transpose(Ai)
-                evals[i], evecs[i] = np.linalg.eig(Ai)
+                evals[i], evecs[i] = np.linalg.eig(_remove_round_off(Ai))
             return evals, evecs
         else:
             if left:
                 A = np.transpose(A)
-            return np.linalg.eig(A)
+            return np.linalg.eig(_remove_round_off(A))
 
     def plot_eigenvalue_parts(self, ax=None, colors=None,
                               show_stable_regions=True, hide_zeros=False,
-- 
2.43.0


From c46afbc10749424db9619e839ef05b7ee9cdc36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 22/38] fix: the handlebar position failed for a vertical steer
 axis

---
 bicycleparameters/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 5c3b4bb..c6ea04b 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -178,7 +178,7 @@ def fwheel_to_handlebar_ref(lam, l1, l2):
     '''
 
     u1 = l2 * umath.sin(lam) - l1 * umath.cos(lam)
-    u2 = u1 / umath.tan(lam) + l1 / umath.sin(lam)
+    u2 = l2 * umath.cos(lam) + l1 * umath.sin(lam)
     return u1, u2
 
 
-- 
2.43.0


From 4cf9a28523cf73cf3d3f9d2b71ed4aa436170c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 23/38] fix: lambda_from_abc failed for floats

---
 bicycleparameters/bicycle.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 04db4b5..07112b0 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -2,7 +2,7 @@
 
 import numpy as np
 from scipy.optimize import newton
-from uncertainties import umath, ufloat
+from uncertainties import umath, ufloat, UFloat, nominal_value
 
 
 def ab_matrix(M, C1, K0, K2, v, g):
@@ -202,11 +202,12 @@ def lambda_from_abc(rF, rR, a, b, c):
     # that needs to be figured out. I guess I could use least squares and do it
     # the same way as get_period.
 
-    args = (rF.nominal_value, rR.nominal_value, a.nominal_value,
-            b.nominal_value, c.nominal_value)
+    args = tuple(nominal_value(x) for x in (rF, rR, a, b, c))
 
-    lam = newton(lam_equality, guess.nominal_value, args=args)
-    return ufloat(lam, guess.std_dev)
+    lam = newton(lam_equality, nominal_value(guess), args=args)
+    if isinstance(guess, UFloat):
+        lam = ufloat(lam, guess.std_dev)
+    return lam
 
 
 def sort_eigenmodes(evals, evecs):
-- 
2.43.0


From 07ec93a081b79671492c4cd7ad55348d9abbae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 24/38] fix: part inertia tensors failed when only some values
 were uncertain

---
 bicycleparameters/inertia.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index 229840f..c447ee4 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -172,11 +172,6 @@ def part_inertia_tensor(par, part):
     documentation.
 
     '''
-    if isinstance(par['IBxx'], UFloat):
-        dtype = object
-    else:
-        dtype = 'float64'
-    I = np.zeros((3, 3), dtype=dtype)
     # front or rear wheel
     if part in 'FRD':
         axes = np.array([['xx', None, None],
@@ -187,6 +182,13 @@ def part_inertia_tensor(par, part):
         axes = np.array([['xx', None, 'xz'],
                          [None, 'yy', None],
                          ['xz', None, 'zz']])
+    # any of the values may have an uncertainty
+    if any(isinstance(par['I' + part + col], UFloat)
+           for col in axes.flat if col is not None):
+        dtype = object
+    else:
+        dtype = 'float64'
+    I = np.zeros((3, 3), dtype=dtype)
     for i, row in enumerate(axes):
         for j, col in enumerate(row):
             if col is not None:
-- 
2.43.0


From 65e813aef51fdebb83d7a732da93b6702b90813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 25/38] fix: vec_angle gave nan for some parallel vectors

---
 bicycleparameters/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index c6ea04b..2104b7e 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -315,8 +315,10 @@ def vec_angle(v1, v2):
     angle : float
         (radians) interior angle between v1 and v2.
     '''
-    return np.arccos(float(np.dot(v1.T, v2).item()) / (np.linalg.norm(v1) *
-                                                       np.linalg.norm(v2)))
+    cosine = float(np.dot(v1.T, v2).item()) / (np.linalg.norm(v1) *
+                                               np.linalg.norm(v2))
+    # round off can give values beyond one for parallel vectors
+    return np.arccos(np.clip(cosine, -1.0, 1.0))
 
 
 def vec_project(vec, direction):
-- 
2.43.0


From 3f060a2bd7382562476bcc15d984604883ab0986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 26/38] fix: Bode comparisons failed for every bicycle and
 speed

---
 bicycleparameters/main.py | 4 +++-
 bicycleparameters/plot.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index c394225..a7cfc4f 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1514,12 +1514,14 @@ class Bicycle(object):
 
         if fig is None:
             fig = plt.figure()
+        if not fig.axes:
+            fig.subplots(2, 1, sharex=True)
 
         for speed in speeds:
             self.plot_bode(speed, u, y, label=str(speed) + ' m/s', fig=fig)
 
         # take care of phase misalignment
-        phaseLines = fig.ax2.lines
+        phaseLines = fig.axes[1].lines
         for line in phaseLines:
             firstValue = line.get_ydata()[0]
             n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
diff --git a/bicycleparameters/plot.py b/bicycleparameters/plot.py
index 2fa25cf..747d936 100644
--- a/bicycleparameters/plot.py
+++ b/bicycleparameters/plot.py
@@ -34,12 +34,14 @@ def compare_bode_bicycles(bikes, speed, u, y, fig=None):
 
     if fig is None:
         fig = plt.figure()
+    if not fig.axes:
+        fig.subplots(2, 1, sharex=True)
 
     for bike in bikes:
         bike.plot_bode(speed, u, y, label=bike.bicycleName, fig=fig)
 
     # take care of phase misalignment
-    phaseLines = fig.ax2.lines
+    phaseLines = fig.axes[1].lines
     for line in phaseLines:
         firstValue = line.get_ydata()[0]
         n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
-- 
2.43.0


From 7430d10e9dc09191a3e9c9f7c067f799706a8ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 27/38] fix: documented order of the Bode outputs was wrong

---
 bicycleparameters/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/plot.py b/bicycleparameters/plot.py
index 747d936..afe0dab 100644
--- a/bicycleparameters/plot.py
+++ b/bicycleparameters/plot.py
@@ -17,8 +17,8 @@ def compare_bode_bicycles(bikes, speed, u, y, fig=None):
         An integer between 0 and 1 corresponding to the inputs roll torque
         and steer torque.
     y : integer
-        An integer between 0 and 3 corresponding to the inputs roll rate,
-        steer rate, roll angle and steer angle.
+        An integer between 0 and 3 corresponding to the outputs roll angle,
+        steer angle, roll rate, and steer rate.
 
     Returns
     -------
-- 
2.43.0


From 2a6a09ed2ce142c8255e31429c19c65d7c182ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 28/38] fix: inertia ellipses were not drawn along the
 principal axes

---
 bicycleparameters/main.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index a7cfc4f..4a1f12c 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -556,9 +556,7 @@ class Bicycle(object):
                     center = np.array([par['x' + part], -par['z' + part]])
                 # which row in C is the y vector
                 uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
+                yrow = np.argmax(np.abs(np.dot(C, uy)))
                 # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
@@ -574,7 +572,7 @@ class Bicycle(object):
                 # principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                angle = -np.degrees(np.arctan2(C2D[0, 1], C2D[0, 0]))
                 ellipse = Ellipse((center[0], center[1]), width, height,
                                   angle=angle, fill=False,
                                   color=partColors[part], alpha=0.25)
@@ -786,9 +784,7 @@ class Bicycle(object):
                     center = np.array([par['x' + part], -par['z' + part]])
                     # which row in C is the y vector
                 uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
+                yrow = np.argmax(np.abs(np.dot(C, uy)))
                     # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
@@ -804,14 +800,14 @@ class Bicycle(object):
                 # the maximum principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                angle = -np.arctan2(C2D[0, 1], C2D[0, 0])
                 x_center = center[0]
                 y_center = center[1]
                 x_ep, y_ep = plot._generate_ellipse_plot_data(
                     x_center=x_center, y_center=y_center,
                     ax1=[np.cos(angle), np.sin(angle)],
                     ax2=[-np.sin(angle), np.cos(angle)],
-                    a=height, b=width, N=100)
+                    a=width, b=height, N=100)
 
                 fig1.add_scatter(x=x_ep, y=y_ep, mode='lines',
                                  name='Inertia of ' + part,
-- 
2.43.0


From 71f04516ea0d0b4fda42a16d8ba6bf94721d72ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 29/38] fix: combine_bike_rider ignored the lateral distance of
 the bicycle to the combined mass center

---
 bicycleparameters/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index c447ee4..e610ade 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -46,7 +46,7 @@ def combine_bike_rider(bicyclePar, riderPar):
                        riderPar['yB'] - cT[1],
                        riderPar['zB'] - cT[2]])
     dBicycle = np.array([bicyclePar['xB'] - cT[0],
-                         0.,
+                         0. - cT[1],
                          bicyclePar['zB'] - cT[2]])
     # calculate the total inertia about the total body center of mass
     I = (parallel_axis(IRider, riderPar['mB'], dRider) +
-- 
2.43.0


From 74c44994ffd2e6891b15c6f0dc4b5712d7b1f264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 30/38] fix: inertia ellipsoids were drawn at half their size

---
 bicycleparameters/parameter_sets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index a98fe7e..c4a11e1 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -782,8 +782,9 @@ class Meijaard2007ParameterSet(ParameterSet):
 
         kaa, kbb, kyy, alpha = self._planar_principal_radii_of_gyration(body)
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        # these are the full lengths of the axes, twice the semi-axes
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)], p['z{}'.format(body)]),
                                   width, height,
@@ -1467,8 +1468,9 @@ class Moore2019ParameterSet(ParameterSet):
         kyy = p['k{}yy'.format(body)]
         alpha = p['alpha{}'.format(body)]
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        # these are the full lengths of the axes, twice the semi-axes
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)],
                                    p['z{}'.format(body)]), width, height,
-- 
2.43.0


From 2607469064d8b08cbcb599f06ed4627740edf28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 31/38] fix: plot_eigenvectors mixed up eigenvectors and
 parameter values

---
 bicycleparameters/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 5ddd883..91c5ac4 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -302,7 +302,8 @@ class _Model(abc.ABC):
             **parameter_overrides)
 
         eval_seq, evec_seq = self.calc_eigen(**parameter_overrides)
-        eval_seq, evec_seq = np.atleast_2d(eval_seq), np.atleast_3d(evec_seq)
+        eval_seq = np.atleast_2d(eval_seq)
+        evec_seq = np.array(evec_seq, ndmin=3)
 
         # TODO : This assumes that the eigenvalues are in the same order.
         plot = np.ones(len(eval_seq[-1]), dtype=int)
@@ -341,7 +342,7 @@ class _Model(abc.ABC):
         else:
             par_vals = [0.0]
 
-        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq.T,
+        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq,
                                                         par_vals)):
 
             if arr_keys:
@@ -350,7 +351,7 @@ class _Model(abc.ABC):
                                       labelpad=30)
 
             i = 0
-            for eigenval, eigenvec, pl in zip(evals, evecs, plot):
+            for eigenval, eigenvec, pl in zip(evals, evecs.T, plot):
 
                 if pl:
                     max_com = np.abs(eigenvec).max()
-- 
2.43.0


From 113c0cf2345d05ca70817287bdb82ab31e3e23f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 32/38] fix: the rider lean rate had no unit and was left out
 of the mode simulations

---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 91c5ac4..961bc8b 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1283,7 +1283,7 @@ class MooreRiderLean2012Model(_Model):
                   'u4', 'u6', 'u7', 'u9']
     input_units = ['N-m', 'N-m', 'N-m']
     state_units = ['m', 'm', 'rad', 'rad', 'rad', 'rad', 'rad', 'rad',
-                   'rad/s', 'rad/s', 'rad/s', ]
+                   'rad/s', 'rad/s', 'rad/s', 'rad/s']
     input_vars_latex = ['T_4', 'T_7', 'T_9']
     state_vars_latex = ['q_1', 'q_2', 'q_3', 'q_4', 'q_6', 'q_7', 'q_8', 'q_9',
                         'u_4', 'u_6', 'u_7', 'u_9']
-- 
2.43.0


From 31308d750b18785677688fcbb8c60b115cea4e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 33/38] fix: mode simulations showed degrees on axes labelled
 with radians

---
 bicycleparameters/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 961bc8b..b53ffbe 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -550,7 +550,9 @@ class _Model(abc.ABC):
                 else:
                     fontcolor = 'black'
                 for j, unit in enumerate(unique_units):
-                    axes[i, j].set_ylabel('[{}]'.format(unit))
+                    # angles are plotted in degrees
+                    axes[i, j].set_ylabel('[{}]'.format(
+                        unit.replace('rad', 'deg')))
                     axes[i, j].set_title(msg.format(e_val),
                                          fontdict={'color': fontcolor})
                     axes[i, j].legend()
-- 
2.43.0


From 90346d11f357e70f92c9e54e086cac8868105cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:23 +0000
Subject: [PATCH 34/38] fix: plot_eigenvalue_parts did not hide zeros at the
 documented tolerance

---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index b53ffbe..6f0a7dd 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -201,7 +201,7 @@ class _Model(abc.ABC):
             evals, evecs = np.array([evals]), np.array([evecs])
             # TODO : legend if not versus param
 
-        tol = hide_zeros if isinstance(hide_zeros, float) else 1e-14
+        tol = hide_zeros if isinstance(hide_zeros, float) else 1e-12
 
         par, array_keys, _ = self._parse_parameter_overrides(
             **parameter_overrides)
-- 
2.43.0


From 6c3f2128d889656ef45db8ad26bafa3a58db76f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 35/38] fix: the uncertainty of the steer axis tilt was that of
 the initial guess

---
 bicycleparameters/bicycle.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 07112b0..ccd2c34 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -2,7 +2,7 @@
 
 import numpy as np
 from scipy.optimize import newton
-from uncertainties import umath, ufloat, UFloat, nominal_value
+from uncertainties import umath, UFloat, nominal_value
 
 
 def ab_matrix(M, C1, K0, K2, v, g):
@@ -195,18 +195,18 @@ def lambda_from_abc(rF, rR, a, b, c):
         return umath.sin(lam) - (rF - rR + c * umath.cos(lam)) / (a + b)
     guess = umath.atan(c / (a + b))  # guess based on equal wheel radii
 
-    # The following assumes that the uncertainty calculated for the guess is
-    # the same as the uncertainty for the true solution. This is not true! and
-    # will surely breakdown the further the guess is away from the true
-    # solution. There may be a way to calculate the correct uncertainity, but
-    # that needs to be figured out. I guess I could use least squares and do it
-    # the same way as get_period.
-
     args = tuple(nominal_value(x) for x in (rF, rR, a, b, c))
 
     lam = newton(lam_equality, nominal_value(guess), args=args)
-    if isinstance(guess, UFloat):
-        lam = ufloat(lam, guess.std_dev)
+
+    if any(isinstance(x, UFloat) for x in (rF, rR, a, b, c)):
+        # The equality is zero at the nominal values, so one more Newton step
+        # with the uncertain values does not change the nominal solution, but
+        # gives it the first order dependency on the uncertain values (implicit
+        # function theorem).
+        slope = umath.cos(lam) + c * umath.sin(lam) / (a + b)
+        lam = lam - lam_equality(lam, rF, rR, a, b, c) / slope
+
     return lam
 
 
-- 
2.43.0


From 60cc61c4d215bb5cf085734df1df9b99ef826089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:03 +0000
Subject: [PATCH 36/38] fix: ten or more orientations of a part were paired
 with the wrong periods

---
 bicycleparameters/com.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/com.py b/bicycleparameters/com.py
index 6eba9f4..7b1c037 100644
--- a/bicycleparameters/com.py
+++ b/bicycleparameters/com.py
@@ -195,9 +195,9 @@ def part_com_lines(mp, par, forkIsSplit):
         intercepts = {'B': [], 'H': []}
         betas = {'B': [], 'H': []}
 
-    # get the alpha keys and put them in order
+    # get the alpha keys and put them in order, alphaB10 is after alphaB9
     listOfAlphaKeys = [x for x in mp.keys() if x.startswith('alpha')]
-    listOfAlphaKeys.sort()
+    listOfAlphaKeys.sort(key=lambda x: (len(x), x))
 
     # caluclate m, b and beta for each orientation
     for key in listOfAlphaKeys:
-- 
2.43.0


From 235ef093b751d807bc5853cc6a011d58a3ed19f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:25 +0000
Subject: [PATCH 37/38] fix: the app raised an error when both ends of the
 speed range coincide

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index f605498..c22292b 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -355,7 +355,7 @@ def plot_update(value, wheel, frame, general, options, slider):
     minBound = rangeSliderData[0]
     maxBound = rangeSliderData[1]
     steps = (maxBound-minBound)/0.1
-    speeds = np.linspace(minBound, maxBound, num=int(steps))
+    speeds = np.linspace(minBound, maxBound, num=max(int(steps), 1))
 
     # create Bike using default data based on dropdown menu value
     Bike = bp.Bicycle(value, pathToData=PATH_TO_APP_DATA)
-- 
2.43.0


From 60b11c0aa4095fab9006c42faa86330f8af46734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:44 +0000
Subject: [PATCH 38/38] fix: a LaTeX table of ten or more orientations raised
 an error and mixed up their names

---
 bicycleparameters/tables.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index eef2530..caad2f6 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -187,11 +187,11 @@ def to_latex(var):
         latex = latexMap[var]
     except KeyError:
         if var.startswith('alpha'):
-            latex = r'\alpha_{' + var[-2:] + '}'
-        elif var.startswith('a') and len(var) == 3:
-            latex = 'a_{' + var[-2:] + '}'
+            latex = r'\alpha_{' + var[5:] + '}'
+        elif var.startswith('a') and var[2:].isdigit():
+            latex = 'a_{' + var[1:] + '}'
         elif var.startswith('T'):
-            latex = 'T^' + var[1] + '_{' + var[-2:] + '}'
+            latex = 'T^' + var[1] + '_{' + var[2:] + '}'
         elif len(var) == 2:
             latex = var[0] + '_' + var[1]
         elif var.startswith('I'):
-- 
2.43.0

