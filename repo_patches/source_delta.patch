From 2ee204ae25db52909bef84b841dcbddd4fd7d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:27 +0000
Subject: [PATCH 01/32] fix: evaluate ASCII-bracket spinor chains as their
 unicode equivalents

The chain pattern accepts '<' and '>', but the branch deciding the chirality
of the first and last spinor compared with unicode brackets only, so e.g.
'<1|2+3|4]' was evaluated as '[1|2+3|4]' with the bracket check skipped.
---
 lips/particles_compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 8875cfd..dc71919 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -79,7 +79,7 @@ class Particles_Compute:
         Available variables: ⟨a|b⟩, [a|b], ⟨a|b+c|d], ⟨a|b+c|d+e|f], ..., s_ijk, Δ_ijk, Ω_ijk, Π_ijk, tr5_ijkl"""
 
         # Consistency of string check is left to ast parser.
-        temp_string = rsubs_dict(original_temp_string, bold_digits)
+        temp_string = rsubs_dict(original_temp_string, bold_digits).replace("<", "⟨").replace(">", "⟩")
 
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
-- 
2.43.0


From 095ba5c5a01d13612b9d8e7f7d4f9211ec63ced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:27 +0000
Subject: [PATCH 02/32] fix: tr5 with a leading massive entry had the wrong
 sign

tr5(a|b|c|d) is antisymmetric, so each cyclic rotation used to bring a
massless leg to the front flips its sign; e.g. tr5(1+2|3|4|5) was minus
tr5(1|3|4|5) + tr5(2|3|4|5).
---
 lips/hardcoded_limits/particles_set.py | 5 +++--
 lips/particles_compute.py              | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lips/hardcoded_limits/particles_set.py b/lips/hardcoded_limits/particles_set.py
index e5cfbb5..902c9d2 100644
--- a/lips/hardcoded_limits/particles_set.py
+++ b/lips/hardcoded_limits/particles_set.py
@@ -463,10 +463,11 @@ class Particles_Set:
 
         abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
         a, b, c, d = abcd.split("|") if "|" in abcd else abcd
+        sign = 1
         for _ in range(4):
             if len(a) == 1:
                 break
-            a, b, c, d = b, c, d, a
+            a, b, c, d, sign = b, c, d, a, -sign  # a cyclic rotation of 4 entries is an odd permutation
         else:
             raise NotImplementedError("tr5 set implementation requires at least 1 massless particle.")
 
@@ -508,7 +509,7 @@ class Particles_Set:
             self[5].l_sp_d = numpy.array([[c5, d5]], dtype=object)
 
         else:  # at 6-point and above there is a simple solution, as the system becomes block diagonal with a suitable choice of variables.
-            X = temp_value
+            X = sign * temp_value
             A, B = self(f"[{a}|{b}|{c}|{d}|-[{a}|{d}|{c}|{b}|").flatten().tolist()
             C, D = self[a].r_sp_d[0, 0], self[a].r_sp_d[1, 0]
             C = (X - B * D) / A
diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index dc71919..697f136 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -84,13 +84,14 @@ class Particles_Compute:
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
             a, b, c, d = abcd.split("|") if "|" in abcd else abcd
+            sign = 1
             for _ in range(4):
                 if len(a) == 1:
                     break
-                a, b, c, d = b, c, d, a
+                a, b, c, d, sign = b, c, d, a, -sign                # a cyclic rotation of 4 entries is an odd permutation
             else:
                 raise NotImplementedError("tr5 implementation requires at least 1 massless particle.")
-            return self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]")
+            return sign * (self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]"))
 
         if ptr.findall(temp_string) != []:                          # e.g.: tr(i+j|k-l|...)
             abcd = ptr.search(temp_string)
-- 
2.43.0


From d337484358a8b51d244d8b36832851cae311ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:27 +0000
Subject: [PATCH 03/32] fix: internal masses given as a list or tuple raised
 AttributeError

The constructor stored the user's own container, which has no add method
unless it is a set (and was shared with the caller if it was).
---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index 2e6bf26..3c96a66 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -65,7 +65,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             for internal_mass, value in internal_masses.items():
                 self.__setattr__(internal_mass, value)
         elif isinstance(internal_masses, (list, tuple, set)) and all(isinstance(internal_mass, str) for internal_mass in internal_masses):
-            self.internal_masses = internal_masses
+            self.internal_masses = set(internal_masses)
             for internal_mass in internal_masses:
                 self.__setattr__(internal_mass, self.field.random())
         elif internal_masses is None:
-- 
2.43.0


From 510a6e5d303ee2e8da96ebe624aa6b3e54bf449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:49 +0000
Subject: [PATCH 04/32] fix: explicit spin-index chains starting with a square
 bracket and two or more insertions

The doubly open part of e.g. [3^|1|2|5^] was transposed as a whole, which
reversed the order of its momenta. Lower/raise each momentum instead.
---
 lips/particles_eval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 887104c..9e35043 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -150,7 +150,9 @@ class Particles_Eval:
         string = pNB_open_begin.sub(r"oPs('\1')", string)
         string = pNB_open_end.sub(r"oPs('\1')", string)
         string = pNB_double_open.sub(r"oPs('\1')", string)
-        string = pNB_double_open_disambiguate_alphadot.sub(r"numpy.transpose(-ϵ @ oPs('\1') @ ϵ)", string)
+        string = pNB_double_open_disambiguate_alphadot.sub(
+            lambda match: "@".join(f"numpy.transpose(-ϵ @ oPs('|{entry}|') @ ϵ)" if i % 2 == 0 else f"oPs('|{entry}|')"
+                                   for i, entry in enumerate(match.group(1)[1:-1].split("|"))), string)
         # open index end
         string = string.replace("sqrt", "oPs.field.sqrt")
         string = re.sub(r'(\d)s', r'\1*s', string)
-- 
2.43.0


From 62b75f285a1293988df1b61b395826e1ce735897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:31 +0000
Subject: [PATCH 05/32] fix: rational coefficients bound tighter than division
 and power
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

⟨12⟩/2/3 was evaluated as ⟨12⟩/(2/3), 3/2^2 as (3/2)^2, and ⟨12⟩^10/3
raised a SyntaxError, because number/number was rewritten textually.
Divide integers exactly in the evaluator instead (also 3^-1).
---
 lips/particles_eval.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 9e35043..d719077 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -18,8 +18,18 @@ from syngular.monomial import non_unicode_powers
 from .tools import LeviCivita
 
 
+def truediv(a, b):
+    """Division, exact for integers."""
+    return Fraction(a, b) if isinstance(a, int) and isinstance(b, int) else op.truediv(a, b)
+
+
+def power(a, b):
+    """Power, exact for integers."""
+    return Fraction(a) ** b if isinstance(a, int) and isinstance(b, int) and b < 0 else op.pow(a, b)
+
+
 operators = {ast.Add: op.add, ast.Sub: op.sub, ast.Mult: op.mul,
-             ast.Div: op.truediv, ast.Pow: op.pow, ast.BitXor: op.xor,
+             ast.Div: truediv, ast.Pow: power, ast.BitXor: op.xor,
              ast.USub: op.neg, ast.UAdd: op.pos, ast.MatMult: op.matmul}
 
 
@@ -160,8 +170,6 @@ class Particles_Eval:
         string = re.sub(r'(?<!tr)(\d)\(', r'\1*(', string)
         string = re.sub(r'\)(\d)', r')*\1', string)
         string = string.replace(')(', ')*(').replace(")o", ")*o")
-        re_rat_nbr = re.compile(r"(?<!\*\*)(\d+)\/(\d+)")
-        string = re_rat_nbr.sub(r"Fraction(\1,\2)", string)
         string = re.sub(r'(?<!numpy\.)block', r'numpy.block', string)
         return string
 
-- 
2.43.0


From 0c0c63eb4b273df3b73adf3a7fbf69415dbe2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:31 +0000
Subject: [PATCH 06/32] fix: particle masses m_i could not appear inside an
 expression

---
 lips/particles_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index d719077..a5864e5 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -46,7 +46,7 @@ pSu = re.compile(r'(?<!\(\')(?<!\[\d)(?<![\+|-]\d\))(?<![\+|-]\d)(?:\|)(\d+)(?:\
 pS2bis = re.compile(r'(?:\[)(\d)(\d)(?:\])')
 pSijk = re.compile(r'(?:s|S)(?:_){0,1}(\d+)')
 pMi = re.compile(r'(?:m|M)(?:_){0,1}(\d)')
-pMVar = re.compile(r'(?<![a-zA-Z])((?:m|M|μ)(?:_){0,1}[a-zA-Z]*[\d]*)')
+pMVar = re.compile(r'(?<![a-zA-Z\'])((?:m|M|μ)(?:_){0,1}[a-zA-Z]*[\d]*)')
 pOijk = re.compile(r'(?:Ω_)(\d+)')
 pPijk = re.compile(r'(?:Π_)(\d+)')
 pDijk_adjacent = re.compile(r'(?:Δ_(\d+)(?![\d\|]))')
-- 
2.43.0


From 1ebef466f671dd1ab5c2a206883e62945fefeb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:31 +0000
Subject: [PATCH 07/32] =?UTF-8?q?fix:=20=CE=94=5Fijk=20could=20not=20appea?=
 =?UTF-8?q?r=20inside=20an=20expression?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lips/particles_eval.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index a5864e5..fe8e7bc 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -49,8 +49,7 @@ pMi = re.compile(r'(?:m|M)(?:_){0,1}(\d)')
 pMVar = re.compile(r'(?<![a-zA-Z\'])((?:m|M|μ)(?:_){0,1}[a-zA-Z]*[\d]*)')
 pOijk = re.compile(r'(?:Ω_)(\d+)')
 pPijk = re.compile(r'(?:Π_)(\d+)')
-pDijk_adjacent = re.compile(r'(?:Δ_(\d+)(?![\d\|]))')
-pDijk_non_adjacent = re.compile(r'(?:Δ_(\d+(?:\|\d+)*))')
+pDijk = re.compile(r'(?:Δ_(\d+(?:\|\d+)*))')
 # p3B = re.compile(r'(?:\u27e8|\[)(\d+)(?:\|\({0,1})([\d+[\+|-]*]*)(?:\){0,1}\|)(\d+)(?:\u27e9|\])')
 # pNB = re.compile(r'((?:⟨|\[)\d+\|(?:(?:\([\d+\+|-]{1,}\))|(?:[\d+\+|-]{1,}))*\|\d+(?:⟩|\]))')  # this messes up on strings like: '|2⟩⟨1|4+5|3|+|3|4+5|2⟩⟨1|'
 pNB = re.compile(r'((?:<|⟨|\[)\d+\|(?:\(?(?:\d+[\+|-]?)+\)?\|?)+\|\d+(?:⟩|\]|>))')
@@ -149,8 +148,7 @@ class Particles_Eval:
         string = pPijk.sub(r"oPs('Π_\1')", string)
         string = ptr5.sub(r"oPs('tr5\1')", string)
         string = ptr.sub(r"oPs('\1')", string)
-        string = pDijk_adjacent.sub(r"oPs('Δ_\1')", string)
-        string = pDijk_non_adjacent.sub(r"oPs('Δ_\1')", string)
+        string = pDijk.sub(r"oPs('Δ_\1')", string)
         string = pNB.sub(r"oPs('\1')", string)
         # open index start
         string = pAu.sub(r"oPs('⟨\1|')", string)
-- 
2.43.0


From 98b788b7b376cf12c9ce464c945c6c1951338406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:30 +0000
Subject: [PATCH 08/32] =?UTF-8?q?fix:=20implicit=20multiplication=20after?=
 =?UTF-8?q?=20the=20mass=20=CE=BC?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lips/particles_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index fe8e7bc..9613fab 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -142,7 +142,7 @@ class Particles_Eval:
         string = pS2.sub(r"oPs('[\1|\2]')", string)
         string = pSijk.sub(r"oPs('s_\1')", string)
         string = pMi.sub(r"oPs('m_\1')", string)
-        string = re.sub(r"([a-zA-Z\d]+)oPs", r"\1*oPs", string)
+        string = re.sub(r"([a-zA-Zμ\d]+)oPs", r"\1*oPs", string)
         string = pMVar.sub(r"oPs('\1')", string)
         string = pOijk.sub(r"oPs('Ω_\1')", string)
         string = pPijk.sub(r"oPs('Π_\1')", string)
-- 
2.43.0


From 7fbe33287a7e331a935d000337179a150f1e6de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:26 +0000
Subject: [PATCH 09/32] fix: the expression evaluator executed code embedded in
 string arguments

oPs("..."), sqrt("..."), Fraction("...") and PAdic("...") pasted their
argument into eval, and any numpy function could be called by name (e.g.
numpy.save). Call the allowed functions directly, and allow only the numpy
functions the parser emits.
---
 lips/particles_eval.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 9613fab..af7b039 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -3,7 +3,6 @@
 
 # Author: Giuseppe
 
-import sys
 import re
 import ast
 import functools
@@ -198,20 +197,18 @@ def _eval_node(node, locals_={}):
 
     elif isinstance(node, ast.Call):
         if isinstance(node.func, ast.Name) and hasattr(node.func, 'id') and node.func.id == 'oPs':
-            function = node.func.id
-            argument = node.args[0].s if sys.version_info[0] > 2 else node.args[0].s.decode('utf-8')
-            allowed_func_call = f"{function}('{argument}')"
+            return locals_['oPs'](node.args[0].s)
         elif isinstance(node.func, ast.Attribute) and node.func.attr in ['mpf', 'sqrt']:
-            function, method = 'oPs.field', node.func.attr
+            field, method = locals_['oPs'].field, node.func.attr
             if hasattr(node.args[0], 'id'):
                 argument = ast_eval_expr(node.args[0].id, locals_)
             else:
                 argument = _eval_node(node.args[0], locals_)
             # return locals_['oPs'].field.sqrt(argument)  # could also avoid re-parsing the argument
-            allowed_func_call = f"{function}.{method}({function}('{argument}'))"
+            return getattr(field, method)(field(f'{argument}'))
         elif isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id in ['numpy', ]:
             module_name, func_name = node.func.value.id, node.func.attr
-            if module_name in locals_ and hasattr(locals_[module_name], func_name):
+            if module_name in locals_ and func_name in ['block', 'transpose']:
                 func = getattr(locals_[module_name], func_name)
                 args = [_eval_node(arg, locals_) for arg in node.args]
                 kwargs = {kw.arg: _eval_node(kw.value, locals_) for kw in node.keywords}
@@ -219,20 +216,17 @@ def _eval_node(node, locals_={}):
             else:
                 raise TypeError("Attribute not understood:", node, ast.dump(node))
         elif isinstance(node.func, ast.Name) and hasattr(node.func, 'id') and node.func.id == 'PAdic':
-            function, arguments = 'PAdic', ", ".join(map(str, [arg.n for arg in node.args]))
-            allowed_func_call = f"{function}({arguments})"
+            return PAdic(*[arg.n for arg in node.args])
         elif isinstance(node.func, ast.Name) and hasattr(node.func, 'id') and node.func.id == 'Fraction':
-            function, arguments = 'Fraction', ", ".join(map(str, [arg.n for arg in node.args]))
-            allowed_func_call = f"{function}({arguments})"
+            return Fraction(*[arg.n for arg in node.args])
         else:
             raise TypeError(node, ast.dump(node))
-        return eval(allowed_func_call, None, locals_)
 
     elif isinstance(node, ast.Name):
         if node.id in locals_.keys() and isinstance(locals_[node.id],
                                                     (int, float, GaussianRational, PAdic, ModP,
                                                      mpmath.mpc, mpmath.mpc, Fraction, numpy.ndarray)):
-            return eval(node.id, None, locals_)
+            return locals_[node.id]
         else:
             raise TypeError(node, ast.dump(node), locals_[node.id] if node.id in locals_.keys() else "Not in locals.")
 
-- 
2.43.0


From 1285773e9286b7730390e6e5caccdf68f9768bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:13 +0000
Subject: [PATCH 10/32] fix: images of points with equal momenta permuted the
 wrong legs

---
 lips/particles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 3c96a66..84baa17 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -146,8 +146,8 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         if type(permutation_or_rule) is str:
             if not permutation_or_rule.isdigit():
                 raise ValueError(f"Permutation to map phase space points should be a string of integers, got: {permutation_or_rule}.")
-            oResParticles = copy.deepcopy(Particles(sorted(self, key=lambda x: permutation_or_rule[self.index(x)]),
-                                                    field=self.field, fix_mom_cons=False, internal_masses=self.internal_masses_dict))
+            permuted_particles = [oP for i, oP in sorted(enumerate(self), key=lambda x: permutation_or_rule[x[0]])]
+            oResParticles = copy.deepcopy(Particles(permuted_particles, field=self.field, fix_mom_cons=False, internal_masses=self.internal_masses_dict))
             oResParticles.__dict__ = copy.deepcopy(self.__dict__)
             return oResParticles
         else:
-- 
2.43.0


From d0e8f2f6aace87da2b7aeca7fb4d6783084470fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:13 +0000
Subject: [PATCH 11/32] fix: copies of points with ten or more particles had
 their particles reordered

---
 lips/particles.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 84baa17..f8befa2 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -158,8 +158,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             return oResParticles
 
     def copy(self):
-        from .symmetries import identity
-        return self.image(identity(len(self)))
+        return copy.deepcopy(self)
 
     def cluster(self, llIntegers, massive_fermions=None):
         """Returns clustered particle objects according to lists of lists of integers (e.g. corners of one loop diagram).
-- 
2.43.0


From f7c5ec51c9c2d504122c20b0c0a5cdaa1d711bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:45 +0000
Subject: [PATCH 12/32] fix: clustering rewrote mass aliases to the wrong
 labels when single legs are renumbered

---
 lips/particles.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index f8befa2..62dcac0 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -21,7 +21,7 @@ from sympy import NotInvertible
 from syngular import Field
 from pyadic import PAdic, ModP
 
-from .tools import MinkowskiMetric, flatten, subs_dict, pNB, myException, indexing_decorator, pAu, pAd, pSu, pSd, pMVar, LeviCivita
+from .tools import MinkowskiMetric, flatten, pNB, myException, indexing_decorator, pAu, pAd, pSu, pSd, pMVar, LeviCivita
 from .particle import Particle
 from .particles_compute import Particles_Compute
 from .particles_eval import Particles_Eval
@@ -165,9 +165,17 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         Massive legs are by default massive scalars.
         Massive fermions can be specificed as e.g.: massive_fermions=((3, 'u', all), (4, 'd', all)))
         """
-        drule1 = dict(zip(["s" + "".join(map(str, entry)) for entry in llIntegers], [f"s{i}" for i in range(1, len(llIntegers) + 1)]))
-        drule2 = dict(zip(["s_" + "".join(map(str, entry)) for entry in llIntegers], [f"s_{i}" for i in range(1, len(llIntegers) + 1)]))
-        clustered_internal_masses = {key: (subs_dict(val, drule1 | drule2) if isinstance(val, str) else val)
+        def clustered_alias(alias):
+            """Rewrites the Mandelstams of a mass alias in terms of the clustered particles, or returns its value if this can't be done."""
+            corners_of = {}
+            for legs in set(re.findall(r"[sS]_?(\d+)", alias)):
+                corners = [i for i, corner in enumerate(llIntegers, 1) if {str(leg) for leg in corner} <= set(legs)]
+                if any(i > 9 for i in corners) or {str(leg) for i in corners for leg in llIntegers[i - 1]} != set(legs):
+                    return self.compute(alias)
+                corners_of[legs] = "".join(map(str, corners))
+            return re.sub(r"([sS]_?)(\d+)", lambda match: match[1] + corners_of[match[2]], alias)
+
+        clustered_internal_masses = {key: (clustered_alias(val) if isinstance(val, str) else val)
                                      for key, val in self.internal_masses_dict.items()}
         selfClustered = Particles([sum([self[i] for i in corner_as_integers]) for corner_as_integers in llIntegers],
                                   field=self.field, fix_mom_cons=False, internal_masses=clustered_internal_masses)
-- 
2.43.0


From 8c6458d109d04118e71870ac27e6fe85cc502883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:45 +0000
Subject: [PATCH 13/32] fix: particle plus zero shared its spinors with the
 original

---
 lips/particle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lips/particle.py b/lips/particle.py
index e513018..6216406 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -9,7 +9,7 @@ import numpy
 import sympy
 import lips
 
-from copy import copy
+from copy import deepcopy
 from sympy import NotInvertible
 
 from syngular import Field
@@ -72,21 +72,21 @@ class Particle(object):
     def __add__(self, other):
         """Sum: summs the four momenta."""
         if other == 0:
-            return copy(self)
+            return deepcopy(self)
         assert isinstance(other, Particle)
         return Particle(kinematics=self.r2_sp + other.r2_sp, field=self.field)
 
     def __radd__(self, other):
         """Sum: summs the four momenta."""
         if other == 0:
-            return copy(self)
+            return deepcopy(self)
         assert isinstance(other, Particle)
         return Particle(kinematics=self.r2_sp + other.r2_sp, field=self.field)
 
     def __sub__(self, other):
         """Sub: subtract the four momenta."""
         if other == 0:
-            return copy(self)
+            return deepcopy(self)
         assert isinstance(other, Particle)
         return Particle(kinematics=self.r2_sp - other.r2_sp, field=self.field)
 
-- 
2.43.0


From a475105cd60b88a9cbbb7371ad704c166473850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:40 +0000
Subject: [PATCH 14/32] fix: internal masses were left behind in the old field
 by to_field

---
 lips/particles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lips/particles.py b/lips/particles.py
index 62dcac0..645848f 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -76,6 +76,9 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def to_field(self, field):
         for oP in self:
             oP.to_field(field)
+        for internal_mass, value in self.internal_masses_dict.items():
+            if not isinstance(value, str):
+                setattr(self, internal_mass, field(value))
         self.field = field
 
     def __setattr__(self, name, value):
-- 
2.43.0


From 56d1c2cfffebe038e8f5076086216c275a335d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:23 +0000
Subject: [PATCH 15/32] fix: Mandelstam with a spinor chain was set on the
 wrong pair of invariants

---
 lips/hardcoded_limits/particles_set_pair.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lips/hardcoded_limits/particles_set_pair.py b/lips/hardcoded_limits/particles_set_pair.py
index e2deced..0a238dd 100644
--- a/lips/hardcoded_limits/particles_set_pair.py
+++ b/lips/hardcoded_limits/particles_set_pair.py
@@ -116,7 +116,8 @@ class Particles_SetPair:
 
             elif p3B.findall(t_s2) != []:                                        # Second is: ⟨i|(j+k)|l]
 
-                return self._set_pair_inner(t_s2, t_v2, t_s1, t_v1)
+                new_invs = self._set_pair_inner(t_s2, t_v2, t_s1, t_v1)
+                return new_invs[::-1] if type(new_invs) is list else new_invs
 
             elif pNB.findall(t_s2) != []:                                        # Second is: ⟨i|(j+k)|...|l⟩
 
@@ -626,14 +627,15 @@ class Particles_SetPair:
                 else:
                     t_s1 = '[{}|({})|{}⟩'.format(l3Bs, l3Bc, l3Be)
                 use_mode = 2
-            else:                                         # ijk contained in l3B and viceversa
-                t_s1 = t_s2                               # this is the s_ijk, s_ij+s_ik, hence s_jk case basically
-                t_s2 = '⟨{}|{}⟩'.format(l3Bm[0], l3Bm[1])
-                self._set_pair_inner(t_s2, t_v2, t_s1, t_v1)
-                return [t_s2, t_s1]                       # cheeky fix
+            elif l3Bs == l3Be and set(l3B) == set(ijk) and len(l3Bm) == 2:   # ijk contained in l3B and viceversa
+                t_s1 = '⟨{}|{}⟩'.format(l3Bm[0], l3Bm[1])  # this is the s_ijk, s_ij+s_ik, hence s_jk case basically
+                self._set_pair_inner(t_s1, t_v1, t_s2, t_v2)
+                return [t_s1, t_s2]                       # cheeky fix
+            else:
+                return "Not implemented."
         elif len(free_first_flipped) >= 2:                # flip it and try again
             t_s2 = 's_{}'.format(''.join(self._complementary(list(map(str, ijk)))))
-            return self._set_pair_inner(t_s2, t_v2, t_s1, t_v1)
+            return self._set_pair_inner(t_s1, t_v1, t_s2, t_v2)
         elif len(free_second_flipped) >= 2:               # flip it and try again
             comp = list(map(int, self._complementary(list(map(str, list(set(l3B)))))))
             l3Bc = ""
@@ -644,7 +646,7 @@ class Particles_SetPair:
                 t_s1 = "⟨{}|({})|{}]".format(l3Bs, l3Bc, l3Be)
             else:
                 t_s1 = "[{}|({})|{}⟩".format(l3Bs, l3Bc, l3Be)
-            return self._set_pair_inner(t_s2, t_v2, t_s1, t_v1)
+            return self._set_pair_inner(t_s1, t_v1, t_s2, t_v2)
         l3B = list(p3B.findall(t_s1)[0])                  # recompute this stuff since it changes sometimes
         l3B[1] = l3B[1].split("+")
         l3Bs, l3Bm, l3Be = int(l3B[0]), list(map(int, l3B[1])), int(l3B[2])
-- 
2.43.0


From d7b9dbb2d653c7d3d99268729ed8034519a399ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:41 +0000
Subject: [PATCH 16/32] fix: the algebraic solver returned points that violate
 momentum conservation when its floating-point roots were unstable

---
 lips/algebraic_geometry/particles_singular_variety.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lips/algebraic_geometry/particles_singular_variety.py b/lips/algebraic_geometry/particles_singular_variety.py
index 5d385c0..f60f361 100644
--- a/lips/algebraic_geometry/particles_singular_variety.py
+++ b/lips/algebraic_geometry/particles_singular_variety.py
@@ -2,7 +2,7 @@ import numpy
 
 from pyadic import ModP, PAdic
 
-from ..tools import flatten
+from ..tools import flatten, myException
 
 from .covariant_ideal import LipsIdeal
 
@@ -36,6 +36,9 @@ class Particles_SingularVariety:
 
         update_particles(self, point_dict)
 
+        if not (self.momentum_conservation_check() and self.onshell_relation_check()):  # e.g. unstable roots with floating-point numbers
+            raise myException("The singular variety solver did not return a valid phase space point for {}.".format(invariants))
+
     @classmethod
     def from_singular_variety(cls, multiplicity, field, invariants, valuations=(), generators=[],
                               indepSetNbr=None, indepSet='guess', seed=None, verbose=False):
-- 
2.43.0


From 66481032c722f5aaf8df573f5a5e7002b9c61ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:08 +0000
Subject: [PATCH 17/32] fix: bivariate slices shifted the square spinors with
 the angle-spinor coefficients

---
 lips/particles_slices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 40161ad..8c89eb5 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -75,7 +75,7 @@ class Particles_Slices:
             ys2 = sympy.symbols(f'y2_1:{len(self) + 1}')
             for i, oP in enumerate(self):
                 oP.r_sp_d = oP.r_sp_d + t1 * xs1[i] * oPShift1.r_sp_d + t2 * xs2[i] * oPShift2.r_sp_d
-                oP.l_sp_d = oP.l_sp_d + t1 * ys1[i] * oPShift1.l_sp_d + t2 * xs2[i] * oPShift2.l_sp_d
+                oP.l_sp_d = oP.l_sp_d + t1 * ys1[i] * oPShift1.l_sp_d + t2 * ys2[i] * oPShift2.l_sp_d
 
             equations = [sympy.poly(entry.expand(), modulus=self.field.characteristic ** self.field.digits) for entry in self.total_mom.flatten().tolist()]
             equations += [sympy.poly(self(constraint).expand(), modulus=self.field.characteristic ** self.field.digits) for constraint in extra_constraints]
-- 
2.43.0


From f1f6373e1058d75ae2395df6c911730696fb3b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:28 +0000
Subject: [PATCH 18/32] fix: slices without a seed failed when a coefficient
 had to be redrawn

---
 lips/particles_slices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 8c89eb5..2f87c9a 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -43,7 +43,7 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
-                xSubs = ideal.point_on_variety(self.field, seed=seed + counter)
+                xSubs = ideal.point_on_variety(self.field, seed=None if seed is None else seed + counter)
             self.subs(xSubs)
 
         elif algorithm == 'generic':  # ring-agnostic algorithm, less efficient: ⟨ij⟩ is quadratic in t
@@ -89,7 +89,7 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
-                xSubs = ideal.point_on_variety(self.field, seed=seed + counter)
+                xSubs = ideal.point_on_variety(self.field, seed=None if seed is None else seed + counter)
             self.subs(xSubs)
 
         elif algorithm == 'generic':
-- 
2.43.0


From 07dc14a8e0080fc20e264fb789c8f59dd5b7a766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:57 +0000
Subject: [PATCH 19/32] fix: the seven-point list of invariants depended on the
 hash seed and lost or repeated four-brackets

---
 lips/invariants.py | 55 +++++++++++++---------------------------------
 1 file changed, 15 insertions(+), 40 deletions(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index b208a10..dbd431d 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -280,48 +280,23 @@ def all_strings(n, temp_string):
                    list(alt[1] - alt[0])[0] == a)):
                 result.remove(invariant)
         _result = [entry for entry in result]
-        for i, iInv in enumerate(_result):                                      # remove some doubles, eg: '⟨2|(3+4)|(5+6)|2⟩' = '⟨2|(1+7)|(5+6)|2⟩'
-            abcd = pNB.search(iInv)
-            a = abcd.group('start')
-            bc = abcd.group('middle')
-            d = abcd.group('end')
+        equivalent_invs = {}
+        for inv in _result:                                                     # remove doubles, eg: '⟨2|(3+4)|(5+6)|2⟩' = '⟨2|(1+7)|(5+6)|2⟩' = '⟨2|(3+4)|(1+7)|2⟩'
+            abcd = pNB.search(inv)
+            a, d = abcd.group('start'), abcd.group('end')
             if a != d:
                 continue
-            bc = re.split(r'[\)|\|]', bc)
-            bc = [entry.replace('|', '') for entry in bc]
-            bc = [entry.replace('(', '') for entry in bc]
-            bc = [entry for entry in bc if entry != '']
-            alt = ["+".join(_complementary(n, list(set(bc[0].split("+") + [a])))), "+".join(_complementary(n, list(set(bc[1].split("+") + [d]))))]
-            bc = [set(entry.split("+")) for entry in bc]
-            alt = [set(entry.split("+")) for entry in alt]
-            if bc[0].issubset(alt[1]):
-                new_alt = alt[1] - bc[0]
-                new_alt = "+".join(new_alt)
-                new_bc = bc[0]
-                new_bc = "+".join(new_bc)
-                if iInv[0] == "⟨":
-                    equal_inv = "⟨{}|({})|({})|{}⟩".format(a, new_bc, new_alt, d)
-                else:
-                    equal_inv = "[{}|({})|({})|{}]".format(a, new_bc, new_alt, d)
-                if equal_inv in result:
-                    if Brackets4IsIndividuallyNeighbouring(n, equal_inv) is True and Brackets4IsIndividuallyNeighbouring(n, iInv) is True:
-                        if _result.index(equal_inv) > i:
-                            result.remove(equal_inv)
-                    elif Brackets4IsIndividuallyNeighbouring(n, equal_inv) is True and Brackets4IsIndividuallyNeighbouring(n, iInv) is False:
-                        result.remove(iInv)
-                    elif Brackets4IsIndividuallyNeighbouring(n, equal_inv) is False and Brackets4IsIndividuallyNeighbouring(n, iInv) is False:
-                        result.remove(equal_inv)
-            if bc[1].issubset(alt[0]):
-                new_alt = alt[0] - bc[1]
-                new_alt = "+".join(new_alt)
-                new_bc = bc[1]
-                new_bc = "+".join(new_bc)
-                if iInv[0] == "⟨":
-                    equal_inv = "⟨{}|({})|({})|{}⟩".format(a, new_alt, new_bc, d)
-                else:
-                    equal_inv = "[{}|({})|({})|{}]".format(a, new_alt, new_bc, d)
-                if equal_inv in result and _result.index(equal_inv) > i:
-                    result.remove(equal_inv)
+            bc = [set(entry.strip("(").split("+")) for entry in re.split(r'[\)|\|]', abcd.group('middle')) if entry != '']
+            alt = [set(_complementary(n, list(entry | {a}))) for entry in bc]
+            # up to a sign these depend only on how the other legs are split in three, if they are
+            split = frozenset(frozenset(one & two) for one in (bc[0], alt[0]) for two in (bc[1], alt[1]) if one & two)
+            if len(split) == 3:
+                equivalent_invs.setdefault((inv[0], a, split), []).append(inv)
+        for invs in equivalent_invs.values():                                   # keep one, individually neighbouring if possible
+            neighbouring_invs = [inv for inv in invs if Brackets4IsIndividuallyNeighbouring(n, inv) is True]
+            for inv in invs:
+                if inv != (neighbouring_invs + invs)[0]:
+                    result.remove(inv)
     return result
 
 
-- 
2.43.0


From 44a3ec393d43f99a6fc0b3686cdb969a41705602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:57 +0000
Subject: [PATCH 20/32] fix: FurtherRestrict4Brackets=False raised TypeError

---
 lips/invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index dbd431d..d22767e 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -429,7 +429,7 @@ def Purge4Brackets(n, invs_4, FurtherRestrict4Brackets):
         if minimal is False:
             continue
         bc = [entry.split("+") for entry in bc]
-        bc = [map(int, entry) for entry in bc]
+        bc = [list(map(int, entry)) for entry in bc]
         if FurtherRestrict4Brackets is False:                                   # check if it is neighbouring
             near = [a, a + 1, a - 1]
             if a == n:
-- 
2.43.0


From 24972f5d56ae9811a0bbede91b243ff07449d62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:32 +0000
Subject: [PATCH 21/32] fix: the cache of invariants ignored the options
 no_hard_coded_ones and FurtherRestrict4Brackets

---
 lips/invariants.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index d22767e..63f3c81 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -27,7 +27,9 @@ class Invariants(object):
 
         self.multiplicity = n
 
-        if no_cached is False and self.pw_invariants is not None and Restrict3Brackets is True and Restrict4Brackets is True:
+        # The cache holds the list for the default options only
+        if (no_cached is False and self.pw_invariants is not None and no_hard_coded_ones is False and
+                Restrict3Brackets is True and Restrict4Brackets is True and FurtherRestrict4Brackets is True):
             try:
                 # Read From Cache
                 with shelve.open(self.pw_invariants, 'r') as sInvariants:
-- 
2.43.0


From b1267209a1747f96db7af2ae0ef0be3414a87743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:07 +0000
Subject: [PATCH 22/32] fix: the cache of invariants failed for good after an
 interrupted or concurrent first use

---
 lips/invariants.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index 63f3c81..43c36cf 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -13,6 +13,7 @@ import os
 import re
 import itertools
 import shelve
+import tempfile
 import dbm
 
 pA2 = re.compile(r'^(?:⟨)([0-9])(?:\|)([0-9])(?:⟩)$')
@@ -46,24 +47,27 @@ class Invariants(object):
                         self.invs_P = sInvariants[str("invs_P")]   # This is Π_ijk
                         self.invs_tr5 = sInvariants[str("invs_tr5")]   # This is tr5
                     else:
-                        raise Exception("Missing piece - regenerate invariants.")
+                        raise dbm.error[0]("Missing piece - regenerate invariants.")
 
             except dbm.error[0]:
                 if verbose:
                     print("Regenerating from scratch")
-                # Generate Them & Write To Cache
-                with shelve.open(self.pw_invariants, 'c') as sInvariants:
-                    self.GenerateFromScratch(n, no_hard_coded_ones,
-                                             Restrict3Brackets=Restrict3Brackets, Restrict4Brackets=Restrict4Brackets, FurtherRestrict4Brackets=FurtherRestrict4Brackets)
-                    sInvariants[str("invs_2")] = self.invs_2
-                    sInvariants[str("invs_3")] = self.invs_3
-                    sInvariants[str("invs_4")] = self.invs_4
-                    sInvariants[str("invs_5")] = self.invs_5
-                    sInvariants[str("invs_s")] = self.invs_s
-                    sInvariants[str("invs_D")] = self.invs_D
-                    sInvariants[str("invs_O")] = self.invs_O
-                    sInvariants[str("invs_P")] = self.invs_P
-                    sInvariants[str("invs_tr5")] = self.invs_tr5
+                # Generate Them & Write To Cache, all at once: other processes must never see it half-written
+                self.GenerateFromScratch(n, no_hard_coded_ones,
+                                         Restrict3Brackets=Restrict3Brackets, Restrict4Brackets=Restrict4Brackets, FurtherRestrict4Brackets=FurtherRestrict4Brackets)
+                with tempfile.TemporaryDirectory(dir=self.pw_cache) as pw_temp:
+                    with shelve.open(os.path.join(pw_temp, "invariants"), 'c') as sInvariants:
+                        sInvariants[str("invs_2")] = self.invs_2
+                        sInvariants[str("invs_3")] = self.invs_3
+                        sInvariants[str("invs_4")] = self.invs_4
+                        sInvariants[str("invs_5")] = self.invs_5
+                        sInvariants[str("invs_s")] = self.invs_s
+                        sInvariants[str("invs_D")] = self.invs_D
+                        sInvariants[str("invs_O")] = self.invs_O
+                        sInvariants[str("invs_P")] = self.invs_P
+                        sInvariants[str("invs_tr5")] = self.invs_tr5
+                    for file_name in os.listdir(pw_temp):
+                        os.replace(os.path.join(pw_temp, file_name), os.path.join(self.pw_cache, file_name))
         else:
             self.GenerateFromScratch(n, no_hard_coded_ones, Restrict3Brackets=Restrict3Brackets, Restrict4Brackets=Restrict4Brackets, FurtherRestrict4Brackets=FurtherRestrict4Brackets)
 
@@ -120,8 +124,7 @@ class Invariants(object):
     def pw_cache(self):
         home = os.path.expanduser("~")
         pw_cache = home + "/.cache/lips/n={}".format(self.multiplicity)
-        if not os.path.exists(pw_cache):
-            os.makedirs(pw_cache)
+        os.makedirs(pw_cache, exist_ok=True)
         return pw_cache
 
     @property
-- 
2.43.0


From cc9162ee2971c32df3d036624704a2edc2be769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:08 +0000
Subject: [PATCH 23/32] fix: comparing points of different multiplicity
 returned True or raised IndexError

---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index 645848f..3ea54e2 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -92,7 +92,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def __eq__(self, other):
         """Checks equality of each particle in particles."""
         if isinstance(other, Particles):
-            return all(self[i] == other[i] for i in range(1, len(self) + 1))
+            return len(self) == len(other) and all(self[i] == other[i] for i in range(1, len(self) + 1))
         else:
             return False
 
-- 
2.43.0


From f404188ca9e46877cc0694bb58e1e95a063a8f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:08 +0000
Subject: [PATCH 24/32] fix: string indices of legs with two digits returned
 the leg of the first digit

---
 lips/particles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 3ea54e2..3a517e5 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -404,8 +404,8 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         if isinstance(index, str):
             if pAu.findall(index) != [] or pAd.findall(index) != [] or pSu.findall(index) != [] or pSd.findall(index) != []:
                 return self.compute(index)
-            elif re.findall(r"(\d)", index) != []:
-                return self[int(re.findall(r"(\d)", index)[0])]
+            elif re.findall(r"(\d+)", index) != []:
+                return self[int(re.findall(r"(\d+)", index)[0])]
             else:
                 raise IndexError(index)
         elif isinstance(index, slice):
-- 
2.43.0


From f7141d9367342d97f708172bce61ac287631748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:08 +0000
Subject: [PATCH 25/32] fix: assignment to a string index that names no spinor
 was silently ignored

---
 lips/particles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lips/particles.py b/lips/particles.py
index 3a517e5..a620b69 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -430,6 +430,8 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             elif pSd.findall(index) != []:                      # [B|
                 B = int(pSd.findall(index)[0])
                 self[B].l_sp_d = value
+            else:
+                raise IndexError(index)
         else:
             list.__setitem__(self, index, value)
 
-- 
2.43.0


From 2e40eeca71785295e77a1ab74ef0be032945e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:53 +0000
Subject: [PATCH 26/32] fix: contraction of equal helicities spelled
 differently ("+" and "p", "-" and "m")

---
 lips/particles_compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 697f136..37c52e4 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -64,7 +64,7 @@ class Particles_Compute:
 
     def ee(self, i, j):
         """Contraction of two polarization tensors. Requires .helconf property to be set."""
-        if self.helconf[i - 1] == self.helconf[j - 1]:
+        if (self.helconf[i - 1] in ["+", "p"]) == (self.helconf[j - 1] in ["+", "p"]):
             return 0
         elif self.helconf[i - 1] in ["-", "m"]:
             # ε⁻ᵢ⋅ε⁺ⱼ = ⟨i|q|j] / ⟨j|q|i]
-- 
2.43.0


From 2fbf564998c67735d83916e2ed3e014cd05d74e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:58 +0000
Subject: [PATCH 27/32] fix: exported spinors had a stray quote after every
 number

---
 lips/particles.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index a620b69..fdacdfd 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -541,12 +541,12 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         i = 1
         for oParticle in self:
             a = oParticle.r_sp_d[0, 0]
-            a_real = repr(a.real)[5:-1]
-            a_imag = repr(a.imag)[5:-1]
+            a_real = repr(a.real)[5:-2]
+            a_imag = repr(a.imag)[5:-2]
             a = (a_real + "+" + a_imag + "I").replace("e", "*^")
             b = oParticle.r_sp_d[1, 0]
-            b_real = repr(b.real)[5:-1]
-            b_imag = repr(b.imag)[5:-1]
+            b_real = repr(b.real)[5:-2]
+            b_imag = repr(b.imag)[5:-2]
             b = (b_real + "+" + b_imag + "I").replace("e", "*^")
             msg += r'Subscript[\[Lambda], ' + str(i) + ',1] = ' + a + ";\n"
             msg += r'Subscript[\[Lambda], ' + str(i) + ',2] = ' + b + ";\n"
@@ -558,12 +558,12 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         i = 1
         for oParticle in self:
             a = oParticle.l_sp_d[0, 0]
-            a_real = repr(a.real)[5:-1]
-            a_imag = repr(a.imag)[5:-1]
+            a_real = repr(a.real)[5:-2]
+            a_imag = repr(a.imag)[5:-2]
             a = (a_real + "+" + a_imag + "I").replace("e", "*^")
             b = oParticle.l_sp_d[0, 1]
-            b_real = repr(b.real)[5:-1]
-            b_imag = repr(b.imag)[5:-1]
+            b_real = repr(b.real)[5:-2]
+            b_imag = repr(b.imag)[5:-2]
             b = (b_real + "+" + b_imag + "I").replace("e", "*^")
             msg += r"Subscript[\!\(\*OverscriptBox[\(\[Lambda]\), \(_\)]\), " + str(i) + ",1] = " + a + ";\n"
             msg += r"Subscript[\!\(\*OverscriptBox[\(\[Lambda]\), \(_\)]\), " + str(i) + ",2] = " + b + ";\n"
-- 
2.43.0


From f813049b3cdfd7fb3942b983fa90ff14bed2512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:17 +0000
Subject: [PATCH 28/32] fix: substitution skipped components that are a power
 of a symbol

---
 lips/particles.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index fdacdfd..506b880 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -245,7 +245,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def subs(self, myDict):
         """For all rank-1 spinor components, substitutes symbols with values from myDict."""
         for oP in self:
-            if isinstance(oP.r_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(oP.r_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 oP.r_sp_d[0, 0] = oP.r_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
                     oP.r_sp_d[0, 0] = ModP(oP.r_sp_d[0, 0], self.field.characteristic)
@@ -253,7 +253,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                     oP.r_sp_d[0, 0] = PAdic(oP.r_sp_d[0, 0], self.field.characteristic, self.field.digits)
                 else:
                     oP.r_sp_d[0, 0] = sympy.poly(oP.r_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
-            if isinstance(oP.r_sp_d[1, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(oP.r_sp_d[1, 0], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 oP.r_sp_d[1, 0] = oP.r_sp_d[1, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[1, 0], sympy.Integer) and self.field.name == "finite field":
                     oP.r_sp_d[1, 0] = ModP(oP.r_sp_d[1, 0], self.field.characteristic)
@@ -262,7 +262,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                 else:
                     oP.r_sp_d[1, 0] = sympy.poly(oP.r_sp_d[1, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
             oP.r_sp_d = oP.r_sp_d  # trigger setter
-            if isinstance(oP.l_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(oP.l_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 oP.l_sp_d[0, 0] = oP.l_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
                     oP.l_sp_d[0, 0] = ModP(oP.l_sp_d[0, 0], self.field.characteristic)
@@ -270,7 +270,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                     oP.l_sp_d[0, 0] = PAdic(oP.l_sp_d[0, 0], self.field.characteristic, self.field.digits)
                 else:
                     oP.l_sp_d[0, 0] = sympy.poly(oP.l_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
-            if isinstance(oP.l_sp_d[0, 1], (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(oP.l_sp_d[0, 1], (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 oP.l_sp_d[0, 1] = oP.l_sp_d[0, 1].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 1], sympy.Integer) and self.field.name == "finite field":
                     oP.l_sp_d[0, 1] = ModP(oP.l_sp_d[0, 1], self.field.characteristic)
@@ -280,7 +280,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                     oP.l_sp_d[0, 1] = sympy.poly(oP.l_sp_d[0, 1], modulus=self.field.characteristic ** self.field.digits).as_expr()
             oP.l_sp_d = oP.l_sp_d  # trigger setter
         for mass in self.internal_masses:
-            if isinstance(getattr(self, mass), (sympy.Add, sympy.Mul, sympy.Symbol)):
+            if isinstance(getattr(self, mass), (sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol)):
                 setattr(self, mass, getattr(self, mass).subs(myDict))
             if isinstance(getattr(self, mass), (sympy.Integer, ModP)) and self.field.name == "finite field":
                 setattr(self, mass, ModP(getattr(self, mass), self.field.characteristic))
-- 
2.43.0


From 9d21bd76d26635d6571fa989a0f9d80b03cc0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:38 +0000
Subject: [PATCH 29/32] fix: asymmetric spinors of a momentum with P0 + P3 = 0
 are undefined, not stale

---
 lips/particle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particle.py b/lips/particle.py
index 6216406..e4528f0 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -380,7 +380,7 @@ class Particle(object):
         self._set_l_sp_d(self._four_mom[0] + self._four_mom[3], self._four_mom[1] - self._four_mom[2] * 1j)
 
     def _set_l_sp_d(self, P0_plus_P3, P1_minus_iP2):  # l_sp_d is \bar{\lambda}_{\dot\alpha}
-        if lips.spinor_convention == 'symmetric' and abs(P0_plus_P3) <= self.field.tollerance:
+        if abs(P0_plus_P3) <= self.field.tollerance:
             raise ValueError("Encountered zero denominator in spinor.")
         elif lips.spinor_convention == 'symmetric':
             lambda_one = self.field.sqrt(P0_plus_P3)
-- 
2.43.0


From bfe323666773fbdf69e87892d1ccf55b62def6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:38 +0000
Subject: [PATCH 30/32] fix: hash of a massless particle whose spinors are
 undefined

---
 lips/particle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particle.py b/lips/particle.py
index e4528f0..a522c83 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -110,7 +110,7 @@ class Particle(object):
         return self.four_mom[key]
 
     def __hash__(self):
-        if abs(self.m2) <= self.field.tollerance:
+        if self.r_sp_d is not None and abs(self.m2) <= self.field.tollerance:
             return hash(tuple([tuple(self.r_sp_d.flatten()), tuple(self.l_sp_d.flatten())]))
         else:
             return hash(tuple(self.r2_sp.flatten()))
-- 
2.43.0


From e9551987ec83e063c61a4f97d475a01181bf7c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:54 +0000
Subject: [PATCH 31/32] fix: LaTeX fractions bound looser than division and
 could not be followed by anything

---
 lips/particles_eval.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index af7b039..7979f88 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -117,14 +117,11 @@ class Particles_Eval:
     def _parse(string):
         string = string.replace("−", "-")
         string = string.replace(r"\scriptscriptstyle", "").replace("<", "⟨").replace(">", "⟩")
-        string = string.replace(r"\frac{", "(")
-        string = string.replace(r"}{", ")/(")
-        string = string.replace("}+\\", ")+")
         string = string.replace("\n", "").replace(" ", "")
-        string = re.sub(r"}$", ")", string)
+        string = re.sub(r"(?<!\\frac)(?<!}){(-?[\d\|]+)}", r"\1", string)
+        string = string.replace(r"\frac{", "((").replace(r"}{", ")/(").replace("}", "))")
         string = non_unicode_powers(string)
         string = re.sub(r"\^(?![\]⟩>\|])", r"**", string)
-        string = re.sub(r"{([\d\|]+)}", r"\1", string)
         # this needs to be at top because it relies on the rest
         string = pMassiveSAu_SpinIndexd.sub(
             lambda match: f"(ϵ@block([[⟨{int(match.group(1))}|], [⟨{int(match.group(1)) + 1}|]]))[0:1, :]@|", string)
-- 
2.43.0


From 0d3c7d5fffef31273a5973255c8774f42d76353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:31 +0000
Subject: [PATCH 32/32] fix: generic slices ignored the seed

---
 lips/particles_slices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 2f87c9a..a81a36b 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -50,7 +50,7 @@ class Particles_Slices:
             multiplicity = len(self)
             I = LipsIdeal(multiplicity, extra_constraints)
             I.to_qring(I)
-            univariate_slice = I.ring.univariate_slice(self.field)
+            univariate_slice = I.ring.univariate_slice(self.field, seed=seed)
             update_particles(self, univariate_slice(t))
 
         else:
-- 
2.43.0

