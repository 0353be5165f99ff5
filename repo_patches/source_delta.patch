From 22706bd1e07d4955669ecb65de780baa14c0351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 01/69] fix: initialise Weight::GammaG and Weight::GammaW

They were read (compared with nullptr) by _AllocateGammaGW, ToDict and FromDict before ever being set.
---
 src/module/weight/weight.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index 1445851..9795c9c 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -22,6 +22,8 @@ weight::Weight::Weight(bool IsAllSymmetric)
     Polar = nullptr;
     G = nullptr;
     W = nullptr;
+    GammaG = nullptr;
+    GammaW = nullptr;
 }
 
 weight::Weight::~Weight()
-- 
2.43.0


From a6d94159571bb03bd113b5e23692532959c683be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 02/69] fix: return a value from Weight::_LoadBasis

Flowing off the end of a non-void function is undefined behaviour.
---
 src/module/weight/weight.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index 9795c9c..3939aa9 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -200,5 +200,6 @@ bool weight::Weight::_LoadBasis(real Beta)
     _Number=_Basis.Get<real>("Number");
     _basis=_Basis.Get<vector<basis>>("Basis");
     _BoseBasis.swap(_basis);
+    return true;
 }
 
-- 
2.43.0


From ea43dd83912d191f13877fa37692f58b4c801e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 03/69] fix: ListenToMessage reports failure while an external
 vertex is attached

The function flowed off its end (undefined behaviour) when runGamma3 is on and HasGammaGW is not 0.
---
 src/environment/envMonteCarlo.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/environment/envMonteCarlo.cpp b/src/environment/envMonteCarlo.cpp
index 9f29913..1b164f4 100644
--- a/src/environment/envMonteCarlo.cpp
+++ b/src/environment/envMonteCarlo.cpp
@@ -202,4 +202,5 @@ bool EnvMonteCarlo::ListenToMessage()
 
         return true;
     }
+    return false;
 }
-- 
2.43.0


From 0e6f637bcae71f3d033892659da842959bc0d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 04/69] fix: self-check rejects a worm flag on an interaction
 when there is no worm

---
 src/module/diagram/diagram_check.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/diagram_check.cpp b/src/module/diagram/diagram_check.cpp
index 2d45d90..75044d4 100644
--- a/src/module/diagram/diagram_check.cpp
+++ b/src/module/diagram/diagram_check.cpp
@@ -89,7 +89,7 @@ bool Diagram::_CheckStatus()
     for (int i = 0; i < W.HowMany(); i++) {
         if (W(i)->IsMeasure)
             totalmeasure += 1;
-        if (W(i)->IsWorm && Worm.Ira->NeighW() != W(i) && Worm.Masha->NeighW() != W(i))
+        if (W(i)->IsWorm && (!Worm.Exist || (Worm.Ira->NeighW() != W(i) && Worm.Masha->NeighW() != W(i))))
             ABORT("W IsWorm status error! no worm!" + W(i)->PrettyString());
         if (Worm.Exist)
             if ((!W(i)->IsWorm) && (Worm.Ira->NeighW() == W(i) || Worm.Masha->NeighW() == W(i)))
-- 
2.43.0


From d95333ac16b343864073cd4de402accbe86dcddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 05/69] fix: FixDiagram ignores the ends of a deleted worm

---
 src/module/diagram/diagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/diagram.cpp b/src/module/diagram/diagram.cpp
index ad15532..8568941 100644
--- a/src/module/diagram/diagram.cpp
+++ b/src/module/diagram/diagram.cpp
@@ -146,7 +146,7 @@ bool Diagram::FixDiagram()
         vertex vin = w->NeighVer(IN);
         vertex vout = w->NeighVer(OUT);
 
-        w->IsWorm = (vin==Worm.Ira || vin==Worm.Masha || vout==Worm.Ira ||vout==Worm.Masha);
+        w->IsWorm = IsWorm(vin) || IsWorm(vout);
 
         vin->nW = w;
         vin->Dir = IN;
-- 
2.43.0


From d9c73b5c0cea3da7a174ae90aca1177beb338530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 06/69] fix: JumpToOrder0 refuses an instantaneous interaction,
 whose ends JumpBackToOrder1 would tear apart

---
 src/module/markov/markov.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module/markov/markov.cpp b/src/module/markov/markov.cpp
index 53faf3c..55814af 100644
--- a/src/module/markov/markov.cpp
+++ b/src/module/markov/markov.cpp
@@ -1585,6 +1585,9 @@ void Markov::JumpToOrder0()
     vertex Ver2 = &Diag->Ver[1];
     if (Ver1->R != Ver2->R)
         return;
+    //JumpBackToOrder1 picks two independent times
+    if (Ver1->NeighW()->IsDelta)
+        return;
 
     Complex weightRatio;
     weightRatio = weight::Norm::Weight() / Diag->Weight;
-- 
2.43.0


From e954142e3842727c0cae93670851e5aea7234906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:02 +0000
Subject: [PATCH 07/69] fix: adding or subtracting a real leaves the imaginary
 part of a Complex alone

---
 src/utility/complex.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/complex.cpp b/src/utility/complex.cpp
index 154eb7b..9799407 100644
--- a/src/utility/complex.cpp
+++ b/src/utility/complex.cpp
@@ -134,12 +134,12 @@ Complex operator+(const Complex& lhs, const Complex& rhs)
 
 Complex operator+(real lhs, const Complex& rhs)
 {
-    return Complex(rhs.Re + lhs, rhs.Im + lhs);
+    return Complex(lhs + rhs.Re, rhs.Im);
 }
 
 Complex operator+(const Complex& lhs, real rhs)
 {
-    return Complex(lhs.Re + rhs, lhs.Im + rhs);
+    return Complex(lhs.Re + rhs, lhs.Im);
 }
 
 Complex operator+(const Complex& lhs)
@@ -154,12 +154,12 @@ Complex operator-(const Complex& lhs, const Complex& rhs)
 
 Complex operator-(real lhs, const Complex& rhs)
 {
-    return Complex(rhs.Re - lhs, rhs.Im - lhs);
+    return Complex(lhs - rhs.Re, -rhs.Im);
 }
 
 Complex operator-(const Complex& lhs, real rhs)
 {
-    return Complex(lhs.Re + rhs, lhs.Im + rhs);
+    return Complex(lhs.Re - rhs, lhs.Im);
 }
 
 Complex operator-(const Complex& c)
-- 
2.43.0


From 85766f64edd9410011404acfc0e42764704f2318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:02 +0000
Subject: [PATCH 08/69] fix: Complex *= and /= by a real that is part of the
 number itself

---
 src/utility/complex.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utility/complex.cpp b/src/utility/complex.cpp
index 9799407..3820a99 100644
--- a/src/utility/complex.cpp
+++ b/src/utility/complex.cpp
@@ -79,8 +79,9 @@ Complex& Complex::operator*=(const Complex& c)
 
 Complex& Complex::operator*=(const real& d)
 {
-    Re *= d; // same as above with c.Im = 0 and c.Re = d
-    Im *= d; // logically and happily simplified
+    real k = d; // backup d, in case c *= c.Re;
+    Re *= k; // same as above with c.Im = 0 and c.Re = d
+    Im *= k; // logically and happily simplified
     return (*this);
 }
 
@@ -101,8 +102,9 @@ Complex& Complex::operator/=(const Complex& c)
 
 Complex& Complex::operator/=(const real& d)
 {
-    Re /= d;
-    Im /= d;
+    real k = d; // backup d, in case c /= c.Re;
+    Re /= k;
+    Im /= k;
     return (*this);
 }
 
-- 
2.43.0


From ade7ee052262ec1380ac957081e874f876411539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:02 +0000
Subject: [PATCH 09/69] fix: arg and pow of negative real numbers, pow with a
 real exponent

---
 src/utility/complex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/complex.h b/src/utility/complex.h
index d021ba8..64a9bdc 100644
--- a/src/utility/complex.h
+++ b/src/utility/complex.h
@@ -98,7 +98,7 @@ inline real mod(const Complex& c)
 
 inline real arg(const Complex& c)
 {
-    return c.Im != 0.0 ? atan2(c.Im, c.Re) : 0.0;
+    return IsZero(c) ? 0.0 : atan2(c.Im, c.Re);
 }
 
 inline Complex phase(const Complex& c)
@@ -151,7 +151,7 @@ inline Complex pow(const Complex& z, const Complex& w)
 
 inline Complex pow(const Complex& z, real u)
 {
-    if (IsZero(0.0))
+    if (IsZero(z))
         return u == 0.0 ? 1.0 : 0.0;
     real logr = 0.5 * log(mod2(z));
     real theta = u * arg(z);
-- 
2.43.0


From 629a64a636fc2c31adbff87d98088bcaf2fb3fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:02 +0000
Subject: [PATCH 10/69] fix: momenta more than one period out of range are
 brought back into it

---
 src/utility/momentum.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/momentum.cpp b/src/utility/momentum.cpp
index 42c964d..2806380 100644
--- a/src/utility/momentum.cpp
+++ b/src/utility/momentum.cpp
@@ -45,9 +45,9 @@ Momentum& Momentum::operator=(const Momentum& m)
 
 int Shift(int k)
 {
-    if (k > MAX_K)
+    while (k > MAX_K)
         k -= (2 * MAX_K + 1);
-    if (k < -MAX_K)
+    while (k < -MAX_K)
         k += (2 * MAX_K + 1);
     return k;
 }
@@ -150,5 +150,6 @@ std::ostream& operator<<(std::ostream& os, const Momentum& m)
 std::istream& operator>>(std::istream& is, Momentum& m)
 {
     is >> m.K;
+    m.K = Shift(m.K);
     return is;
 }
-- 
2.43.0


From c6610906e61bffc0fa1bdd500d677df2c9a1957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:02 +0000
Subject: [PATCH 11/69] fix: a full Bundle refuses another component

---
 src/module/diagram/component_bundle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/component_bundle.cpp b/src/module/diagram/component_bundle.cpp
index d9136b4..46f8780 100644
--- a/src/module/diagram/component_bundle.cpp
+++ b/src/module/diagram/component_bundle.cpp
@@ -32,7 +32,7 @@ string Bundle<T>::BundleName()
 template <typename T>
 T *Bundle<T>::Add()
 {
-    if (_available_space > MAX_BUNDLE)
+    if (_available_space >= MAX_BUNDLE)
         ABORT("Too many objects >=" << MAX_BUNDLE);
     T *address = _component_name[_available_space];
 
-- 
2.43.0


From 0ed1631a49308a3d5913cc09e914611799b4d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:02 +0000
Subject: [PATCH 12/69] fix: Bundle refuses to index or remove outside the
 stored components

---
 src/module/diagram/component_bundle.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/module/diagram/component_bundle.cpp b/src/module/diagram/component_bundle.cpp
index 46f8780..ef72b4b 100644
--- a/src/module/diagram/component_bundle.cpp
+++ b/src/module/diagram/component_bundle.cpp
@@ -58,6 +58,8 @@ void Bundle<T>::Remove(name name)
 {
     if (DEBUGMODE && _available_space == 0)
         ABORT("Nothing to delete!");
+    if (DEBUGMODE && (name < 0 || name >= _available_space))
+        ABORT(name << " exceeds the storage!");
     _available_space--;
     T *last = _component_name[_available_space];
     T *target = _component_name[name];
@@ -96,7 +98,7 @@ void Bundle<T>::Remove(T *target)
 template <typename T>
 T &Bundle<T>::operator[](name name)
 {
-    if (DEBUGMODE && name >= _available_space)
+    if (DEBUGMODE && (name < 0 || name >= _available_space))
         ABORT(name << " exceeds the storage!");
     return *_component_name[name];
 }
@@ -104,7 +106,7 @@ T &Bundle<T>::operator[](name name)
 template <typename T>
 T *Bundle<T>::operator()(name name)
 {
-    if (DEBUGMODE && name >= _available_space)
+    if (DEBUGMODE && (name < 0 || name >= _available_space))
         ABORT(name << " exceeds the storage!");
     return _component_name[name];
 }
-- 
2.43.0


From 1955e21c4b01ff03455af388e2c0454e6ef7df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:54 +0000
Subject: [PATCH 13/69] fix: lattice vectors more than one period outside are
 brought back into the lattice

---
 src/lattice/lattice.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lattice/lattice.cpp b/src/lattice/lattice.cpp
index bdd72f0..0194867 100644
--- a/src/lattice/lattice.cpp
+++ b/src/lattice/lattice.cpp
@@ -78,9 +78,9 @@ Vec<int> Lattice::Index2Vec(int index) const
 void Lattice::Shift(Vec<int>& vec) const
 {
     for (int i = 0; i < D; i++) {
-        if (vec[i] < 0)
+        while (vec[i] < 0)
             vec[i] += Size[i];
-        if (vec[i] >= Size[i])
+        while (vec[i] >= Size[i])
             vec[i] -= Size[i];
     }
 }
-- 
2.43.0


From d832676d04b5e6d38588423e12cb74e3109fdb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:54 +0000
Subject: [PATCH 14/69] fix: the two equal-spin states have spin index 0 and 3

---
 src/module/weight/index_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/weight/index_map.cpp b/src/module/weight/index_map.cpp
index 6c46239..0a29dec 100644
--- a/src/module/weight/index_map.cpp
+++ b/src/module/weight/index_map.cpp
@@ -96,7 +96,7 @@ int IndexMapSPIN2::SpinIndex(spin SpinIn, spin SpinOut)
 
 bool IndexMapSPIN2::IsSameSpin(int spindex)
 {
-    return (spindex == 0 || spindex == 2);
+    return (spindex == 0 || spindex == 3);
 }
 
 uint IndexMapSPIN2::GetIndex(spin in, spin out, const Site& rin, const Site& rout,
-- 
2.43.0


From 975227116eab60ba185bdee2bcb91dc15c61f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:54 +0000
Subject: [PATCH 15/69] fix: annealing moves a weight estimator to the new
 temperature and keeps its normalised weight

---
 src/module/weight/weight_estimator.cpp | 10 ++++++++--
 src/module/weight/weight_estimator.h   |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/module/weight/weight_estimator.cpp b/src/module/weight/weight_estimator.cpp
index fddd18f..c1fec38 100644
--- a/src/module/weight/weight_estimator.cpp
+++ b/src/module/weight/weight_estimator.cpp
@@ -24,7 +24,10 @@ void WeightEstimator::Allocate(const IndexMap& map, int order, real Norm)
 {
     int Vol = map.Lat.Vol;
     _Beta = map.Beta;
-    _Norm = Norm * (map.MaxTauBin / _Beta) / _Beta / Vol;
+    _NormFactor = Norm;
+    _MaxTauBin = map.MaxTauBin;
+    _Vol = Vol;
+    _Norm = _NormFactor * (_MaxTauBin / _Beta) / _Beta / _Vol;
     uint MeaShape[SMOOTH_T_SIZE + 1];
     MeaShape[0] = order;
     std::copy(map.GetShape(), map.GetShape() + SMOOTH_T_SIZE, &MeaShape[1]);
@@ -39,7 +42,10 @@ void WeightEstimator::Anneal(real Beta)
     //real NormFactor = 1.0 / _NormAccu * _Norm;
     //has the same value before Beta is changed
     //so that GetWeightArray will give a same weight function
-    _NormAccu *= pow((Beta / _Beta), 2.0);
+    real OldNorm = _Norm;
+    _Beta = Beta;
+    _Norm = _NormFactor * (_MaxTauBin / _Beta) / _Beta / _Vol;
+    _NormAccu *= _Norm / OldNorm;
 }
 
 void WeightEstimator::MeasureNorm(real weight)
diff --git a/src/module/weight/weight_estimator.h b/src/module/weight/weight_estimator.h
index d2693da..05aa3fc 100644
--- a/src/module/weight/weight_estimator.h
+++ b/src/module/weight/weight_estimator.h
@@ -39,6 +39,9 @@ public:
 protected:
     real _Beta;
     real _Norm; //The normalization factor
+    real _NormFactor;
+    uint _MaxTauBin;
+    int _Vol;
     real _NormAccu; //The normalization accumulation
     //final weight function =_WeightAccu/_NormAccu*_Norm
     //final weight of each bin = (final weight of each bin)/MAX_BIN*Beta
-- 
2.43.0


From b4923bba1546f7627b3456cbfd2675a896da4033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:54 +0000
Subject: [PATCH 16/69] fix: a cleared estimator forgets its error bar, and an
 exported one is up to date

---
 src/estimator/estimator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estimator/estimator.cpp b/src/estimator/estimator.cpp
index 9784ae8..41896f2 100644
--- a/src/estimator/estimator.cpp
+++ b/src/estimator/estimator.cpp
@@ -94,6 +94,7 @@ void Estimator<T>::ClearStatistics()
     _ratio = 1.0;
     _norm = 1.0;
     //small enough non-zero number to avoid NAN
+    _value = EstimateClass<T>();
 }
 
 template <typename T>
@@ -238,6 +239,7 @@ bool Estimator<T>::FromDict(const Dictionary& dict)
 template <typename T>
 Dictionary Estimator<T>::ToDict()
 {
+    _update();
     vector<uint> shape = { _end };
     Dictionary dict;
     dict["Norm"] = _norm;
-- 
2.43.0


From 07ab4980876fb864e05ab29e28ea62e81e093376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:54 +0000
Subject: [PATCH 17/69] fix: an imported estimator keeps the interval of its
 history

---
 src/estimator/estimator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/estimator/estimator.cpp b/src/estimator/estimator.cpp
index 41896f2..8340947 100644
--- a/src/estimator/estimator.cpp
+++ b/src/estimator/estimator.cpp
@@ -232,6 +232,10 @@ bool Estimator<T>::FromDict(const Dictionary& dict)
     _end = hist_.Shape()[0];
     _accumulator = dict.Get<T>("Accu");
     _norm = dict.Get<real>("Norm");
+    if (dict.HasKey("Interval"))
+        _interval = dict.Get<uint>("Interval");
+    if (dict.HasKey("Counter"))
+        _counter = dict.Get<uint>("Counter");
     _update();
     return true;
 }
@@ -244,6 +248,8 @@ Dictionary Estimator<T>::ToDict()
     Dictionary dict;
     dict["Norm"] = _norm;
     dict["Accu"] = _accumulator;
+    dict["Interval"] = _interval;
+    dict["Counter"] = _counter;
     dict["History"] = Python::ArrayObject(_history, shape, 1);
     Dictionary est;
     est["Mean"] = Python::AnyObject(_value.Mean);
-- 
2.43.0


From 80fb352604e1c1f078fc96c26ebcd38192a55210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:43 +0000
Subject: [PATCH 18/69] fix: statistics of the interaction vertex function
 start from zero

---
 src/module/weight/gamma3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index a953a96..d41804d 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -508,6 +508,7 @@ bool GammaWClass::WeightFromDict(const Dictionary& dict) {
     if(!_WeightAccu.IsAllocate()) {
         _WeightAccu.Allocate(WeightShape, SMOOTH);
         _WeightSize = _WeightAccu.GetSize();
+        ClearStatistics();
     }
 
     if(dict.HasKey("SmoothT")) {
-- 
2.43.0


From 218a8e014b85357a695a38dcb0fcd228d2b6e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:26 +0000
Subject: [PATCH 19/69] fix: refuse arrays of another element type instead of
 reinterpreting their memory

---
 src/utility/pyglue/pyarraywrapper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/pyglue/pyarraywrapper.cpp b/src/utility/pyglue/pyarraywrapper.cpp
index 6cd69d2..82d9422 100644
--- a/src/utility/pyglue/pyarraywrapper.cpp
+++ b/src/utility/pyglue/pyarraywrapper.cpp
@@ -104,18 +104,21 @@ template <>
 Complex* ArrayObject::Data<Complex>()
 {
     ASSERT_ALLWAYS(_PyPtr != nullptr, "ArrayObject is still empty!");
+    ASSERT_ALLWAYS(PyArray_TYPE((PyArrayObject*)_PyPtr) == (sizeof(Complex) == 8 ? NPY_COMPLEX64 : NPY_COMPLEX128), "array of complex numbers is expected!");
     return reinterpret_cast<Complex*>(PyArray_DATA(_PyPtr));
 }
 template <>
 real* ArrayObject::Data<real>()
 {
     ASSERT_ALLWAYS(_PyPtr != nullptr, "ArrayObject is still empty!");
+    ASSERT_ALLWAYS(PyArray_TYPE((PyArrayObject*)_PyPtr) == (sizeof(real) == 4 ? NPY_FLOAT32 : NPY_FLOAT64), "array of real numbers is expected!");
     return reinterpret_cast<real*>(PyArray_DATA(_PyPtr));
 }
 template <>
 int* ArrayObject::Data<int>()
 {
     ASSERT_ALLWAYS(_PyPtr != nullptr, "ArrayObject is still empty!");
+    ASSERT_ALLWAYS(PyArray_TYPE((PyArrayObject*)_PyPtr) == (NPY_INT), "array of integer numbers is expected!");
     return reinterpret_cast<int*>(PyArray_DATA(_PyPtr));
 }
 
-- 
2.43.0


From a8eb6b5ba1828ae7bc935b9d863999d8d2b69357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:49 +0000
Subject: [PATCH 20/69] fix: refuse to import statistics that do not fit the
 tables instead of writing past their end

---
 src/estimator/estimator.cpp            | 1 +
 src/module/weight/gamma3.cpp           | 8 ++++----
 src/module/weight/weight_array.cpp     | 1 +
 src/module/weight/weight_estimator.cpp | 4 +++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/estimator/estimator.cpp b/src/estimator/estimator.cpp
index 8340947..6c7dd79 100644
--- a/src/estimator/estimator.cpp
+++ b/src/estimator/estimator.cpp
@@ -227,6 +227,7 @@ bool Estimator<T>::FromDict(const Dictionary& dict)
     ClearStatistics();
     auto hist_ = dict.Get<Python::ArrayObject>("History");
     ASSERT_ALLWAYS(hist_.Dim() == 1, "expect one dimension array here!");
+    ASSERT_ALLWAYS(hist_.Shape()[0] <= SIZE, "the history exceeds the memory of the estimator!");
     T* begin = hist_.Data<T>();
     std::copy(begin, begin + hist_.Shape()[0], _history);
     _end = hist_.Shape()[0];
diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index d41804d..a5f569b 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -145,8 +145,8 @@ bool GammaGClass::StatisFromDict(const Dictionary &dict)
     _Norm = dict.Get<real>("Norm");
     _NormAccu = dict.Get<real>("NormAccu");
     auto arr = dict.Get<Python::ArrayObject>("WeightAccu");
-    //assert estimator shape except order dimension
-    ASSERT_ALLWAYS(Equal(arr.Shape().data() + 1, _WeightAccu.GetShape() + 1, _WeightAccu.GetDim() - 1), "Shape should match!");
+    ASSERT_ALLWAYS(arr.Dim() == _WeightAccu.GetDim(), "Dimension should match!");
+    ASSERT_ALLWAYS(Equal(arr.Shape().data(), _WeightAccu.GetShape(), _WeightAccu.GetDim()), "Shape should match!");
     _WeightAccu.Assign(0.0);
     _WeightAccu.Assign(arr.Data<Complex>(), arr.Size());
     return true;
@@ -522,8 +522,8 @@ bool GammaWClass::StatisFromDict(const Dictionary &dict)
     _Norm = dict.Get<real>("Norm");
     _NormAccu = dict.Get<real>("NormAccu");
     auto arr = dict.Get<Python::ArrayObject>("WeightAccu");
-    //assert estimator shape except order dimension
-    ASSERT_ALLWAYS(Equal(arr.Shape().data() + 1, _WeightAccu.GetShape() + 1, _WeightAccu.GetDim() - 1), "Shape should match!");
+    ASSERT_ALLWAYS(arr.Dim() == _WeightAccu.GetDim(), "Dimension should match!");
+    ASSERT_ALLWAYS(Equal(arr.Shape().data(), _WeightAccu.GetShape(), _WeightAccu.GetDim()), "Shape should match!");
     _WeightAccu.Assign(0.0);
     _WeightAccu.Assign(arr.Data<Complex>(), arr.Size());
     return true;
diff --git a/src/module/weight/weight_array.cpp b/src/module/weight/weight_array.cpp
index 6e1a4dc..1956e59 100644
--- a/src/module/weight/weight_array.cpp
+++ b/src/module/weight/weight_array.cpp
@@ -74,6 +74,7 @@ bool WeightArray<DIM>::FromDict(const Dictionary& dict)
 {
     ASSERT_ALLWAYS(IsAllocated, "Array should be allocated first!");
     Python::ArrayObject arr = dict.Get<Python::ArrayObject>(_Name);
+    ASSERT_ALLWAYS(arr.Dim() == GetDim(), "Dimension should match!");
     ASSERT_ALLWAYS(Equal(arr.Shape().data(), GetShape(), GetDim()), "Shape should match!");
     Assign(arr.Data<Complex>());
     return true;
diff --git a/src/module/weight/weight_estimator.cpp b/src/module/weight/weight_estimator.cpp
index c1fec38..bf78af5 100644
--- a/src/module/weight/weight_estimator.cpp
+++ b/src/module/weight/weight_estimator.cpp
@@ -82,7 +82,9 @@ bool WeightEstimator::FromDict(const Dictionary& dict)
     _Norm = dict.Get<real>("Norm");
     _NormAccu = dict.Get<real>("NormAccu");
     auto arr = dict.Get<Python::ArrayObject>("WeightAccu");
-    //assert estimator shape except order dimension
+    //assert estimator shape except order dimension, where fewer orders are allowed
+    ASSERT_ALLWAYS(arr.Dim() == _WeightAccu.GetDim(), "Dimension should match!");
+    ASSERT_ALLWAYS(arr.Shape()[0] <= _WeightAccu.GetShape()[0], "Too many orders!");
     ASSERT_ALLWAYS(Equal(arr.Shape().data() + 1, _WeightAccu.GetShape() + 1, _WeightAccu.GetDim() - 1), "Shape should match!");
     _WeightAccu.Assign(0.0);
     _WeightAccu.Assign(arr.Data<Complex>(), arr.Size());
-- 
2.43.0


From d391c861b0a4c42490d28cbcc06448ff94e09683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:42 +0000
Subject: [PATCH 21/69] fix: printing the statistics does not change the worm
 space reweight factor

---
 src/module/markov/markov_monitor.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/module/markov/markov_monitor.cpp b/src/module/markov/markov_monitor.cpp
index b78d2ba..e6a0ce9 100644
--- a/src/module/markov/markov_monitor.cpp
+++ b/src/module/markov/markov_monitor.cpp
@@ -126,7 +126,6 @@ void MarkovMonitor::PrintOrderReWeight()
         output << "Order0 :" << weight[0] << " Order" << i << " :" << weight[i] << endl;
     }
 
-    Para->WormSpaceReweight = phyweight / wormweight;
     output << "Worm confs:" << wormweight << " Physics confs: " << phyweight <<  endl;
     LOG_INFO(output.str());
 
-- 
2.43.0


From 3a21f39df3124d3c3f4292cc29f76cfb4cc120ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:42 +0000
Subject: [PATCH 22/69] fix: automatic reweighting changes all factors or none

---
 src/module/markov/markov_monitor.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/module/markov/markov_monitor.cpp b/src/module/markov/markov_monitor.cpp
index e6a0ce9..4d295a2 100644
--- a/src/module/markov/markov_monitor.cpp
+++ b/src/module/markov/markov_monitor.cpp
@@ -170,12 +170,18 @@ bool MarkovMonitor::AdjustOrderReWeight()
     real wormweight = 0.0, phyweight = 0.0;
     weight[0] = WormEstimator[0].Value() + PhyEstimator[0].Value();
 
-    LOG_INFO("Number of confs in different Order => Reweight Ratio:");
-    stringstream output;
+    //check all counts before any factor is changed
     for (int i = 1; i <= Para->Order; i++) {
         weight[i] = WormEstimator[i].Value() + PhyEstimator[i].Value();
         wormweight += WormEstimator[i].Value();
         phyweight += PhyEstimator[i].Value();
+    }
+    if (Zero(weight[0]) || Zero(wormweight) || Zero(phyweight))
+        return false;
+
+    LOG_INFO("Number of confs in different Order => Reweight Ratio:");
+    stringstream output;
+    for (int i = 1; i <= Para->Order; i++) {
         if (Zero(weight[i]))
             continue;
         Para->OrderReWeight[i] *= Para->OrderTimeRatio[i] * weight[0] / weight[i];
@@ -183,9 +189,6 @@ bool MarkovMonitor::AdjustOrderReWeight()
     }
     Para->OrderReWeight[0] = 1.0;
 
-    if (Zero(wormweight))
-        return false;
-
     Para->WormSpaceReweight *= phyweight / wormweight;
     output << "Worm confs:" << wormweight << " Physics confs: " << phyweight << " => " << Para->WormSpaceReweight << endl;
     LOG_INFO(output.str());
-- 
2.43.0


From b3cc8c1682c3487fbcc23dadb55dd103aa37147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:18 +0000
Subject: [PATCH 23/69] fix: annealing adapts the vertex functions to the new
 temperature

---
 src/module/weight/gamma3.cpp | 22 ++++++++++++++++++++++
 src/module/weight/gamma3.h   |  2 ++
 src/module/weight/weight.cpp |  4 ++++
 3 files changed, 28 insertions(+)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index a5f569b..9327629 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -167,6 +167,17 @@ Dictionary GammaGClass::WeightToDict()
 }
 
 
+//adapt to a new temperature, the normalized statistics remain the same
+void GammaGClass::Reset(real Beta)
+{
+    real factor = pow(_Beta / Beta, 3.0);
+    _Norm *= factor;
+    _NormAccu *= factor;
+    _Map = IndexMapSPIN2(Beta, _MaxTauBin, _Map.Lat, TauAntiSymmetric);
+    _Beta = Beta;
+    _dBetaInverse = _MaxTauBin / _Beta;
+}
+
 GammaWClass::GammaWClass(const Lattice &lat, real beta, uint MaxTauBinTiny,  std::vector<basis> & BoseBasis, real Norm)
         : _Map(IndexMapSPIN4(beta, MaxTauBinTiny, lat, TauSymmetric))
 {
@@ -542,3 +553,14 @@ Dictionary GammaWClass::WeightToDict()
 {
     return _Weight.ToDict();
 }
+
+//adapt to a new temperature, the normalized statistics remain the same
+void GammaWClass::Reset(real Beta)
+{
+    real factor = pow(_Beta / Beta, 3.0);
+    _Norm *= factor;
+    _NormAccu *= factor;
+    _Map = IndexMapSPIN4(Beta, _MaxTauBinTiny, _Map.Lat, TauSymmetric);
+    _Beta = Beta;
+    _dBetaInverse = _MaxTauBinTiny / _Beta;
+}
diff --git a/src/module/weight/gamma3.h b/src/module/weight/gamma3.h
index 2d17c42..e47b581 100755
--- a/src/module/weight/gamma3.h
+++ b/src/module/weight/gamma3.h
@@ -42,6 +42,7 @@ namespace weight {
 
         void MeasureNorm(real weight);
 
+        void Reset(real Beta);
         void ClearStatistics();
         void SqueezeStatistics(real factor);
 
@@ -80,6 +81,7 @@ namespace weight {
 
         void MeasureNorm(real weight);
 
+        void Reset(real Beta);
         void ClearStatistics();
 
         void SqueezeStatistics(real factor);
diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index 3939aa9..748c466 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -66,6 +66,10 @@ void weight::Weight::Anneal(const ParaMC &para)
     W->Reset(para.Beta);
     Sigma->Reset(para.Beta);
     Polar->Reset(para.Beta);
+    if (GammaG != nullptr)
+        GammaG->Reset(para.Beta);
+    if (GammaW != nullptr)
+        GammaW->Reset(para.Beta);
 }
 
 bool weight::Weight::FromDict(const Dictionary &dict, flag _flag, const para::ParaMC &para)
-- 
2.43.0


From 53bb82d50fc4c10815bdb8672bcea3f277263237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:02 +0000
Subject: [PATCH 24/69] fix: converting a python object to a spin no longer
 recurses for ever

---
 src/utility/pyglue/type_cast.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility/pyglue/type_cast.cpp b/src/utility/pyglue/type_cast.cpp
index 42d72ee..f59a5b7 100644
--- a/src/utility/pyglue/type_cast.cpp
+++ b/src/utility/pyglue/type_cast.cpp
@@ -125,7 +125,11 @@ bool Convert(Object obj, ITypeCast& value)
 
 bool Convert(Object obj, spin& val)
 {
-    return Convert(obj, val);
+    int value;
+    if (!Convert(obj, value) || (value != (int)UP && value != (int)DOWN))
+        return false;
+    val = spin(value);
+    return true;
 }
 bool Convert(Object obj, Momentum& val)
 {
-- 
2.43.0


From 7e97088c7bf6b24766ef9486d4188a396e112e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:02 +0000
Subject: [PATCH 25/69] fix: tuples with an ill-typed element are refused and
 keep their reference count

---
 src/utility/pyglue/type_cast.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/pyglue/type_cast.h b/src/utility/pyglue/type_cast.h
index 3745443..8316719 100644
--- a/src/utility/pyglue/type_cast.h
+++ b/src/utility/pyglue/type_cast.h
@@ -75,7 +75,8 @@ template <size_t n, class... Args>
 typename std::enable_if<n != 0, bool>::type
 AddToTuple(Object obj, std::tuple<Args...>& tup)
 {
-    AddToTuple<n - 1, Args...>(obj.Get(), tup);
+    if (!AddToTuple<n - 1, Args...>(obj, tup))
+        return false;
     Object item = Object(PyTuple_GetItem(obj.Get(), n), NoRef);
     return Convert(item, std::get<n>(tup));
 }
-- 
2.43.0


From abe22f0c5ba73e538945e41c572648869fc22d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:02 +0000
Subject: [PATCH 26/69] fix: a list of the wrong length is not accepted as a
 vector

---
 src/utility/pyglue/type_cast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/pyglue/type_cast.h b/src/utility/pyglue/type_cast.h
index 8316719..f306178 100644
--- a/src/utility/pyglue/type_cast.h
+++ b/src/utility/pyglue/type_cast.h
@@ -51,7 +51,7 @@ template <typename T>
 bool Convert(Object obj, Vec<T>& val)
 {
     auto Dim = val.size();
-    if (!PyList_Check(obj.Get()) || PyList_Size(obj.Get()) < Dim)
+    if (!PyList_Check(obj.Get()) || PyList_Size(obj.Get()) != Dim)
         return false;
 
     for (auto i = 0; i < Dim; i++) {
-- 
2.43.0


From 3359b2578cbf4b9db7b97f96a14934e913583f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:29 +0000
Subject: [PATCH 27/69] fix: python integers out of the range of the requested
 type are refused

---
 src/utility/pyglue/type_cast.cpp | 49 +++++++++++++++++---------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/utility/pyglue/type_cast.cpp b/src/utility/pyglue/type_cast.cpp
index f59a5b7..f05a917 100644
--- a/src/utility/pyglue/type_cast.cpp
+++ b/src/utility/pyglue/type_cast.cpp
@@ -41,47 +41,45 @@ bool IsInt(const Object& obj)
     return PyInt_Check(obj.Get()) || PyLong_Check(obj.Get());
 }
 
-bool Convert(Object obj, int& value)
+//return false if the python integer can not be represented by type T
+template <typename T, typename S>
+bool ConvertInt(Object obj, T& value, S (*AsInteger)(PyObject*))
 {
     if (!IsInt(obj))
         return false;
-    value = (int)PyLong_AsLong(obj.Get());
+    S temp = AsInteger(obj.Get());
+    if (PyErr_Occurred()) {
+        PyErr_Clear();
+        return false;
+    }
+    if ((S)(T)temp != temp)
+        return false;
+    value = (T)temp;
     return true;
 }
+bool Convert(Object obj, int& value)
+{
+    return ConvertInt(obj, value, PyLong_AsLong);
+}
 bool Convert(Object obj, unsigned int& value)
 {
-    if (!IsInt(obj))
-        return false;
-    value = (unsigned int)PyLong_AsUnsignedLong(obj.Get());
-    return true;
+    return ConvertInt(obj, value, PyLong_AsLongLong);
 }
 bool Convert(Object obj, long& value)
 {
-    if (!IsInt(obj))
-        return false;
-    value = PyLong_AsLong(obj.Get());
-    return true;
+    return ConvertInt(obj, value, PyLong_AsLong);
 }
 bool Convert(Object obj, unsigned long& value)
 {
-    if (!IsInt(obj))
-        return false;
-    value = PyLong_AsUnsignedLong(obj.Get());
-    return true;
+    return ConvertInt(obj, value, PyLong_AsUnsignedLong);
 }
 bool Convert(Object obj, long long& value)
 {
-    if (!IsInt(obj))
-        return false;
-    value = PyLong_AsLongLong(obj.Get());
-    return true;
+    return ConvertInt(obj, value, PyLong_AsLongLong);
 }
 bool Convert(Object obj, unsigned long long& value)
 {
-    if (!IsInt(obj))
-        return false;
-    value = PyLong_AsUnsignedLongLong(obj.Get());
-    return true;
+    return ConvertInt(obj, value, PyLong_AsUnsignedLongLong);
 }
 
 template <typename T>
@@ -89,7 +87,12 @@ bool ConvertReal(Object obj, T& val)
 {
     if (!PyFloat_Check(obj.Get()) && !IsInt(obj))
         return false;
-    val = (T)PyFloat_AsDouble(obj.Get());
+    double temp = PyFloat_AsDouble(obj.Get());
+    if (PyErr_Occurred()) {
+        PyErr_Clear();
+        return false;
+    }
+    val = (T)temp;
     return true;
 }
 bool Convert(Object obj, float& val)
-- 
2.43.0


From 7478fdce642f25da62a9d2ce3c95c96395bbc7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:32 +0000
Subject: [PATCH 28/69] fix: loading into a dictionary replaces its content
 instead of keeping old values

---
 src/utility/dictionary.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utility/dictionary.cpp b/src/utility/dictionary.cpp
index c74228a..77bf26e 100644
--- a/src/utility/dictionary.cpp
+++ b/src/utility/dictionary.cpp
@@ -24,7 +24,12 @@ Object Dictionary::ToPy() const
 
 bool Dictionary::FromPy(const Object& obj)
 {
-    return Python::Convert(obj, _Map);
+    //the old content is replaced, and survives if the conversion fails
+    PythonMap map;
+    if (!Python::Convert(obj, map))
+        return false;
+    _Map.swap(map);
+    return true;
 }
 
 Python::AnyObject& Dictionary::operator[](const std::string& key)
-- 
2.43.0


From 7553b8e0ce351c2e2c7d16e3a0b10a942227356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:16 +0000
Subject: [PATCH 29/69] fix: statistics of the interaction vertex function are
 loaded in the precision the simulation reads

---
 IO.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/IO.py b/IO.py
index 0c3f708..a2952d7 100755
--- a/IO.py
+++ b/IO.py
@@ -24,8 +24,11 @@ def SaveBigDict(filename, root):
     if filename[-4:]!=".hkl":
         filename+=".hkl"
     if "GammaWStatis" in root.keys():
-        gammaw=root["GammaWStatis"]
+        #change a copy, the data of the caller should remain in double precision
+        root=dict(root)
+        gammaw=dict(root["GammaWStatis"])
         gammaw["WeightAccu"]=array(gammaw["WeightAccu"], dtype=complex64)
+        root["GammaWStatis"]=gammaw
     hkl.dump(root, "_"+filename, mode='w', compression='gzip')
     os.rename("_"+filename, filename)
 
@@ -37,4 +40,7 @@ def LoadBigDict(filename):
         gammaw=data["WWGammaW"]
         if "SmoothT" in gammaw.keys():
             gammaw["SmoothT"]=array(gammaw["SmoothT"], dtype=complex)
+    if "GammaWStatis" in data.keys():
+        gammaw=data["GammaWStatis"]
+        gammaw["WeightAccu"]=array(gammaw["WeightAccu"], dtype=complex)
     return data
-- 
2.43.0


From 79cf158147a23c6be8ed876cdb35c13e279a3c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 30/69] fix: an exported interaction vertex function can be
 imported again

---
 src/module/weight/gamma3.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index 9327629..680db83 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -551,7 +551,16 @@ Dictionary GammaWClass::StatisToDict()
 
 Dictionary GammaWClass::WeightToDict()
 {
-    return _Weight.ToDict();
+    auto dict = _Weight.ToDict();
+    //the symmetry map is needed to read the compressed weight
+    dict["RSqueeze"] = _RSqueeze;
+    dict["RSymFactor"] = _RSymFactor;
+    dict["TauSqueeze"] = _TauSqueeze;
+    dict["TauSymFactor"] = _TauSymFactor;
+    dict["TauFlag"] = _TauFlag;
+    dict["RSize"] = _RSize;
+    dict["TauSize"] = _TauSize;
+    return dict;
 }
 
 //adapt to a new temperature, the normalized statistics remain the same
-- 
2.43.0


From 891a21537f1e92543c08683fde3ac7c9b595e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 31/69] fix: refuse parameters without a time ratio for every
 order

---
 src/module/parameter/parameter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/parameter/parameter.cpp b/src/module/parameter/parameter.cpp
index 48f3ab2..361d7ba 100644
--- a/src/module/parameter/parameter.cpp
+++ b/src/module/parameter/parameter.cpp
@@ -91,6 +91,7 @@ bool ParaMC::FromDict(const Dictionary& Para)
         RNG.Reset(Seed);
     ASSERT_ALLWAYS(Order < MAX_ORDER, "Order can not be bigger than " << MAX_ORDER);
     ASSERT_ALLWAYS(OrderReWeight.size() >= Order + 1, "OrderReWeight should have Order+1 elementes!");
+    ASSERT_ALLWAYS(OrderTimeRatio.size() >= Order + 1, "OrderTimeRatio should have Order+1 elementes!");
 
     auto _timer = _para.Get<Dictionary>("Timer");
     GET(_timer, PrinterTimer);
-- 
2.43.0


From c50aabf8ebe520126804164e4381605e48390de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:08 +0000
Subject: [PATCH 32/69] fix: a diagram of order zero stays at order zero when
 it is saved, loaded or annealed

---
 src/module/diagram/diagram.cpp    | 9 +++++++--
 src/module/diagram/diagram_IO.cpp | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/module/diagram/diagram.cpp b/src/module/diagram/diagram.cpp
index 8568941..53d66a3 100644
--- a/src/module/diagram/diagram.cpp
+++ b/src/module/diagram/diagram.cpp
@@ -120,7 +120,9 @@ bool Diagram::FixDiagram()
     ASSERT_ALLWAYS(Lat != nullptr, "Lattice is not defined yet!");
     ASSERT_ALLWAYS(GWeight != nullptr && WWeight != nullptr, "G and W have been initialized yet!");
 
-    Order = W.HowMany();
+    //a diagram of order zero keeps its lines for the way back to order one
+    if (Order != 0)
+        Order = W.HowMany();
     Worm.Weight = 1.0;
     
     if(Worm.Exist){
@@ -163,7 +165,10 @@ bool Diagram::FixDiagram()
         //TODO: Do something here if you want to fix vertex
     }
 
-    Weight *= SignFermiLoop * (Order % 2 == 0 ? 1 : -1);
+    if (Order == 0)
+        Weight = Complex(weight::Norm::Weight(), 0.0);
+    else
+        Weight *= SignFermiLoop * (Order % 2 == 0 ? 1 : -1);
     Phase = phase(Weight);
     return true;
 }
diff --git a/src/module/diagram/diagram_IO.cpp b/src/module/diagram/diagram_IO.cpp
index aaf891f..7fe6ad5 100644
--- a/src/module/diagram/diagram_IO.cpp
+++ b/src/module/diagram/diagram_IO.cpp
@@ -136,6 +136,7 @@ Dictionary Diagram::ToDict()
         Config["Worm"] = _ToDict(Worm);
     }
     Config["SignFermiLoop"] = SignFermiLoop;
+    Config["Order"] = Order;
     return Config;
 }
 
@@ -159,6 +160,9 @@ bool Diagram::FromDict(const Dictionary& Config)
         _FromDict(Config.Get<Dictionary>("Worm"), Worm);
     }
     SignFermiLoop = Config.Get<real>("SignFermiLoop");
+    Order = W.HowMany();
+    if (Config.HasKey("Order"))
+        Config.Get("Order", Order);
     FixDiagram();
     return true;
 }
-- 
2.43.0


From 7af230e882059e6114ec6a7b8b3817255305ab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:16 +0000
Subject: [PATCH 33/69] fix: a delayed interrupt is only recorded by its
 handler, and Resume always ends the delay

---
 src/utility/abort.cpp | 12 +++++++-----
 src/utility/abort.h   |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/utility/abort.cpp b/src/utility/abort.cpp
index ebe2f1e..40acd33 100644
--- a/src/utility/abort.cpp
+++ b/src/utility/abort.cpp
@@ -9,7 +9,7 @@
 #include "abort.h"
 #include <csignal>
 
-int InterruptHandler::__Signal = -1;
+volatile sig_atomic_t InterruptHandler::__Signal = -1;
 
 void InterruptHandler::__SignalHandler(int signum)
 {
@@ -19,7 +19,7 @@ void InterruptHandler::__SignalHandler(int signum)
 }
 void InterruptHandler::__DelayedSignalHandler(int signum)
 {
-    LOG_INFO("Delaying interrupt Signal " << signum);
+    //only record the signal, it may arrive anywhere in the delayed section
     __Signal = signum;
 }
 
@@ -47,9 +47,11 @@ void InterruptHandler::Resume()
 {
     signal(SIGINT, __SignalHandler);
     signal(SIGTERM, __SignalHandler);
-    if (__IsDelaying && (__Signal == SIGINT || __Signal == SIGTERM)) {
-        __SignalHandler(__Signal);
+    bool WasDelaying = __IsDelaying;
+    __IsDelaying = false;
+    if (WasDelaying && (__Signal == SIGINT || __Signal == SIGTERM)) {
+        int signum = __Signal;
         __Signal = -1;
-        __IsDelaying = false;
+        __SignalHandler(signum);
     }
 }
diff --git a/src/utility/abort.h b/src/utility/abort.h
index cbb3fd0..50e1689 100644
--- a/src/utility/abort.h
+++ b/src/utility/abort.h
@@ -11,6 +11,7 @@
 
 #include "logger.h"
 #include "convention.h"
+#include <csignal>
 #include <stdexcept>
 
 #define EXCEPTION(name)                                        \
@@ -63,7 +64,7 @@ private:
     static void __SignalHandler(int signum); //signal handler for normal state
     static void __DelayedSignalHandler(int signum); //signal handler after Delay() is called
     bool __IsDelaying;
-    static int __Signal;
+    static volatile sig_atomic_t __Signal;
 };
 
 #endif /* defined(__Fermion_Simulator__error_handler__) */
-- 
2.43.0


From 0e704d71ebefe146c1c0842ac33ee09b74130207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:33 +0000
Subject: [PATCH 34/69] fix: annealing to a lower Beta keeps the times of the
 vertices in range

---
 src/environment/envMonteCarlo.cpp | 3 +++
 src/module/diagram/diagram.cpp    | 6 ++++++
 src/module/diagram/diagram.h      | 1 +
 3 files changed, 10 insertions(+)

diff --git a/src/environment/envMonteCarlo.cpp b/src/environment/envMonteCarlo.cpp
index 1b164f4..02925c2 100644
--- a/src/environment/envMonteCarlo.cpp
+++ b/src/environment/envMonteCarlo.cpp
@@ -172,7 +172,10 @@ bool EnvMonteCarlo::ListenToMessage()
             LOG_WARNING("Annealing Failed!");
             return false;
         }
+        real OldBeta = Para.Beta;
         Para.UpdateWithMessage(Message_);
+        if (Para.Beta < OldBeta) //all times should remain in [0, Beta)
+            Diag.RescaleTau(Para.Beta / OldBeta);
 
         Weight.FromDict(weight_, weight::GW, Para);
 
diff --git a/src/module/diagram/diagram.cpp b/src/module/diagram/diagram.cpp
index 53d66a3..d44afd3 100644
--- a/src/module/diagram/diagram.cpp
+++ b/src/module/diagram/diagram.cpp
@@ -95,6 +95,12 @@ void Diagram::Reset(Lattice& lat, weight::GClass& g, weight::WClass& w)
     FixDiagram();
 }
 
+void Diagram::RescaleTau(real factor)
+{
+    for (int index = 0; index < Ver.HowMany(); index++)
+        Ver(index)->Tau *= factor;
+}
+
 void Diagram::ClearDiagram()
 {
     for (int i = 0; i < 2 * MAX_K + 1; i++) {
diff --git a/src/module/diagram/diagram.h b/src/module/diagram/diagram.h
index 6c0d49f..e54d633 100644
--- a/src/module/diagram/diagram.h
+++ b/src/module/diagram/diagram.h
@@ -33,6 +33,7 @@ public:
     void Reset(Lattice&, weight::GClass&, weight::WClass&);
     void SetTest(Lattice&, weight::GClass&, weight::WClass&);
     bool CheckDiagram();
+    void RescaleTau(real factor);
     bool FixDiagram();
 
     Lattice* Lat;
-- 
2.43.0


From 0f79ce20a0275501a1b657459e0843dbbfe0a209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:47 +0000
Subject: [PATCH 35/69] fix: a corrupted text file raises an IO error, which
 callers recover from

---
 IO.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/IO.py b/IO.py
index a2952d7..5d83cba 100755
--- a/IO.py
+++ b/IO.py
@@ -18,7 +18,12 @@ def LoadDict(filename):
     if filename[-4:]!=".txt":
         filename+=".txt"
     with open(filename, "r") as f:
-        return eval(f.read())
+        text=f.read()
+    try:
+        return eval(text)
+    except Exception as e:
+        #e.g. the file is being written by another process
+        raise IOError("{0} is corrupted: {1}".format(filename, e))
 
 def SaveBigDict(filename, root):
     if filename[-4:]!=".hkl":
-- 
2.43.0


From 4f8b35b0246851ff96b2f928a843b68ae846da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:49 +0000
Subject: [PATCH 36/69] fix: an immediate interrupt ends the process without
 running unsafe code in the signal handler

---
 src/utility/abort.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utility/abort.cpp b/src/utility/abort.cpp
index 40acd33..ea7860f 100644
--- a/src/utility/abort.cpp
+++ b/src/utility/abort.cpp
@@ -8,14 +8,14 @@
 
 #include "abort.h"
 #include <csignal>
+#include <unistd.h>
 
 volatile sig_atomic_t InterruptHandler::__Signal = -1;
 
 void InterruptHandler::__SignalHandler(int signum)
 {
-    LOG_INFO("Signal " << signum << " received. Interrupting program...");
-    __Signal = signum;
-    exit(signum);
+    //the signal may interrupt memory allocation, logging etc, so neither log nor run exit handlers here
+    _exit(signum);
 }
 void InterruptHandler::__DelayedSignalHandler(int signum)
 {
@@ -52,6 +52,10 @@ void InterruptHandler::Resume()
     if (WasDelaying && (__Signal == SIGINT || __Signal == SIGTERM)) {
         int signum = __Signal;
         __Signal = -1;
-        __SignalHandler(signum);
+        //end only once, whatever arrives from now on
+        signal(SIGINT, SIG_IGN);
+        signal(SIGTERM, SIG_IGN);
+        LOG_INFO("Signal " << signum << " received. Interrupting program...");
+        exit(signum);
     }
 }
-- 
2.43.0


From d21b3b5de9e5aab31d52754867f47b6443ba683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:24 +0000
Subject: [PATCH 37/69] fix: IO saves numpy arrays in text files with all their
 digits

---
 IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IO.py b/IO.py
index 5d83cba..dbac928 100755
--- a/IO.py
+++ b/IO.py
@@ -6,7 +6,7 @@ import hickle as hkl
 from numpy import *
 #all numpy symbols have to be imported as * in order to read "array([...])" in .txt file with LoadDict function
 
-set_printoptions(threshold=nan) #make sure numpy will print all elements, so that SaveDict and LoadDict will work even for very large array
+set_printoptions(threshold=nan, precision=21) #make sure numpy will print all elements with all digits, so that SaveDict and LoadDict will work even for very large array
 
 def SaveDict(filename, mode, root):
     if filename[-4:]!=".txt":
-- 
2.43.0


From 8fb58a6483f768817d4c837d8b9cedfd37cd5a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 38/69] fix: Fourier transform of a weight should not alter the
 array it shares with other weights

---
 dyson/weight.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dyson/weight.py b/dyson/weight.py
index 474fbcb..40fa897 100644
--- a/dyson/weight.py
+++ b/dyson/weight.py
@@ -226,9 +226,10 @@ class Weight():
             return
         tau=np.array([self.Map.IndexToTau(e) for e in range(self.Shape[self.TAUDIM])])
         PhaseFactor=np.exp(-1j*BackForth*np.pi*tau/self.Beta)
-        self.Data*=PhaseFactor
+        #do not multiply in place, the array may be shared with other weights or dictionaries
+        self.Data=self.Data*PhaseFactor
         if hasattr(self, "AccuData"):
-            self.AccuData*=PhaseFactor
+            self.AccuData=self.AccuData*PhaseFactor
 
     def FromDict(self, data):
         if self.Name in data:
@@ -312,7 +313,7 @@ class Weight():
         #PhaseFactor[1:]=(1-EXP)/(1j*omega*2.0*np.pi)/self.Beta*self.MaxTauBin
         #if BackForth==-1:
             #PhaseFactor=1/PhaseFactor
-        self.Data*=PhaseFactor
+        self.Data=self.Data*PhaseFactor
 
     def __SpatialShape(self, shape):
         InsertPos=self.VOLDIM
-- 
2.43.0


From 04258e19a716e187ca0dbd97fe71fee7720b3498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 39/69] fix: Fourier transform in time treats the accumulated
 weight as the weight itself

---
 dyson/weight.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyson/weight.py b/dyson/weight.py
index 40fa897..e67982e 100644
--- a/dyson/weight.py
+++ b/dyson/weight.py
@@ -314,6 +314,8 @@ class Weight():
         #if BackForth==-1:
             #PhaseFactor=1/PhaseFactor
         self.Data=self.Data*PhaseFactor
+        if hasattr(self, "AccuData"):
+            self.AccuData=self.AccuData*PhaseFactor
 
     def __SpatialShape(self, shape):
         InsertPos=self.VOLDIM
-- 
2.43.0


From 6c3b30ff701673ce2a8a41b5cd346023b10d883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 40/69] fix: a merge is rolled back once only

---
 dyson/weight.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyson/weight.py b/dyson/weight.py
index e67982e..f22b0e8 100644
--- a/dyson/weight.py
+++ b/dyson/weight.py
@@ -202,6 +202,8 @@ class Weight():
             self.Data = self.AccuData/self.Norm
         else:
             self.Data=self.BackUpWeight.Data
+        #nothing is left to be undone
+        self.BackUpRatio=None
     
     def FFT(self, *SpaceOrTime):
         if "R" in SpaceOrTime and self.SpaceDomain is "K":
-- 
2.43.0


From 17c5cee7392d51b324d19700c847e3b79fb01c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 41/69] fix: lu_fast solves with right hand sides stored in
 fortran order

---
 dyson/solver/lu_fast.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyson/solver/lu_fast.pyx b/dyson/solver/lu_fast.pyx
index 9d11afc..01a9d09 100644
--- a/dyson/solver/lu_fast.pyx
+++ b/dyson/solver/lu_fast.pyx
@@ -70,7 +70,8 @@ def lu_solve(np.ndarray[cComplex, ndim=3] lu, np.ndarray[int, ndim=2] piv, np.nd
     piv=np.require(piv, requirements=['F'])+1
     bb=np.require(b, requirements=['F'])
     if np.may_share_memory(b,bb):
-        bb=b.copy()
+        #b.copy() would return an array in C order
+        bb=b.copy(order='F')
     #for i in prange(size, nogil=True):
     for i in range(size):
         zgetrs_(&trans, &N, &nrhs, &lu[0,0,i], &LDA, &piv[0,i], &bb[0,0,i], &LDB, &info);
-- 
2.43.0


From 96f1dca5111c91997438d15670ee01233a379d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 42/69] fix: first order polarization pairs lines of opposite
 displacements

---
 dyson/calculator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyson/calculator.py b/dyson/calculator.py
index a8a9c09..f17d985 100644
--- a/dyson/calculator.py
+++ b/dyson/calculator.py
@@ -67,6 +67,8 @@ def Polar_FirstOrder(G, map):
     NSpin = G.NSpin
     SubList=[(a,b) for a in range(NSublat) for b in range(NSublat)]
     SpList=[(a,b) for a in range(NSpin) for b in range(NSpin)]
+    #index of the opposite displacement, the two G lines run in opposite directions
+    Opposite=[map.CoordiIndex([-c%l for c,l in zip(coord,map.L)]) for coord in map.GetAllCoordi()]
     for spin1,spin2 in SpList:
         spinPolar = ((spin1,spin2),(spin2,spin1))
         spinG1 = (spin1, spin1)
@@ -74,7 +76,7 @@ def Polar_FirstOrder(G, map):
         for subA,subB in SubList:
             Polar.Data[map.Spin2Index(*spinPolar[IN]),subA, \
                     map.Spin2Index(*spinPolar[OUT]),subB,:,:]+=OrderSign*FermiLoopSign \
-                    *AntiSymmetricFactor*G.Data[spinG1[IN], subB, spinG1[OUT], subA, :, ::-1]  \
+                    *AntiSymmetricFactor*G.Data[spinG1[IN], subB, spinG1[OUT], subA, Opposite, ::-1]  \
                     *G.Data[spinG2[IN], subA, spinG2[OUT], subB, :, :]
     return Polar
 
-- 
2.43.0


From acf940d7ad03ae001c510993470997be26f4e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 43/69] fix: first order W ends with the outgoing spins

---
 dyson/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyson/calculator.py b/dyson/calculator.py
index f17d985..08b0b98 100644
--- a/dyson/calculator.py
+++ b/dyson/calculator.py
@@ -95,7 +95,7 @@ def W_FirstOrder(W0, Polar, map):
 
     for spWt,spPolart in SpinList:
         spW0L=(map.Spin2Index(*spWt[IN]), map.Spin2Index(*spPolart[IN]))
-        spW0R=(map.Spin2Index(*spPolart[OUT]), map.Spin2Index(*spWt[IN]))
+        spW0R=(map.Spin2Index(*spPolart[OUT]), map.Spin2Index(*spWt[OUT]))
         spW = (map.Spin2Index(*spWt[IN]), map.Spin2Index(*spWt[OUT]))
         spPolar = (map.Spin2Index(*spPolart[IN]), map.Spin2Index(*spPolart[OUT]))
         for e in SubList:
-- 
2.43.0


From b4616da2a98745e26d284a78a8aae313b031b819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 44/69] fix: bare G of degenerate levels

---
 dyson/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyson/model.py b/dyson/model.py
index 7d5dee6..1b5915a 100644
--- a/dyson/model.py
+++ b/dyson/model.py
@@ -186,7 +186,8 @@ class BareFactory:
         self.BareG.FFT("K","T")
 
         for k in range(self.__Map.Vol): 
-            Ek,Uk=np.linalg.eig(self.__KineticTerm.Data[:,:,k])
+            #the kinetic term is hermitian, eig does not give orthogonal vectors for degenerate levels
+            Ek,Uk=np.linalg.eigh(self.__KineticTerm.Data[:,:,k])
             # print Ek, self.__KineticTerm.Data[:,:,k]
             Ukdag=Uk.conj().T
             for t in range(self.__MaxTauBin):
-- 
2.43.0


From 2585dc8189fbc202a16ee650657ad33624b21395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 45/69] fix: Hubbard interaction is local and conserves spin

---
 dyson/model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dyson/model.py b/dyson/model.py
index 1b5915a..45b1c82 100644
--- a/dyson/model.py
+++ b/dyson/model.py
@@ -212,9 +212,13 @@ class BareFactory:
 
     def __BuildHubbardInteraction(self):
         HubbardU=self.__HubbardInteraction
+        #on-site interaction between the densities of opposite spins
+        UU=self.__Map.Spin2Index(UP,UP)
+        DD=self.__Map.Spin2Index(DOWN,DOWN)
+        origin=self.__Map.CoordiIndex([0 for e in self.__Map.L])
         for sub in range(self.__Map.NSublat):
-            self.BareW.Data[0,sub,1,sub,:]+= HubbardU;
-            self.BareW.Data[1,sub,0,sub,:]+= HubbardU;
+            self.BareW.Data[UU,sub,DD,sub,origin]+= HubbardU;
+            self.BareW.Data[DD,sub,UU,sub,origin]+= HubbardU;
 
     def __BuildShortRangeInteraction(self, LatName, InteractionTypeList):
         """
-- 
2.43.0


From 2900938136a1ddaca13cc43dc938aa48810c05f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 46/69] fix: reciprocal vectors are listed in the order of the
 lattice vectors

---
 dyson/lattice.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dyson/lattice.py b/dyson/lattice.py
index ae72faf..3be471d 100644
--- a/dyson/lattice.py
+++ b/dyson/lattice.py
@@ -37,8 +37,8 @@ class Lattice:
                               [1.0,-1.0]])
         self.SubLatVec=np.array([[0.0,0.0],
                                  [1.0,0.0]])
-        self.ReciprocalLatVec =np.array([[PI, -PI],
-                                         [PI,  PI]])
+        self.ReciprocalLatVec =np.array([[PI,  PI],
+                                         [PI, -PI]])
         self.Path=[(0,0),(PI,0),(PI,PI),(0,0)]
         self.PathName=["$\Gamma$\n$(0,0)$", "$X$\n$(\pi,0)$", "$M$\n$(\pi,\pi)$","$\Gamma$\n$(0,0)$"]
         self.IndependtBZCenter=[(0,0)]
@@ -133,8 +133,8 @@ class Lattice:
         self.SubLatVec = np.array([[0.5, 0.0],
                                   [1.0/4.0, root3/4],
                                   [3.0/4.0, root3/4]])
-        self.ReciprocalLatVec=np.array([[0.0, PI2*2.0/root3],
-                                        [PI2, -PI2/root3]])
+        self.ReciprocalLatVec=np.array([[PI2, -PI2/root3],
+                                        [0.0, PI2*2.0/root3]])
         #TODO: self.Path is not correct yet
         self.Path=[(0,0),(PI2/root3,0)]
         self.PathName=["\Gamma", "M"]
@@ -188,9 +188,9 @@ class Lattice:
                                  [0.0,0.25,0.25],
                                  [0.25,0.0,0.25],
                                  [0.25,0.25,0.0]])
-        self.ReciprocalLatVec=np.array([[2*PI, -2*PI, 2*PI],
-                                        [2*PI, 2*PI, -2*PI],
-                                        [-2*PI, 2*PI, 2*PI]])
+        self.ReciprocalLatVec=np.array([[-2*PI, 2*PI, 2*PI],
+                                        [2*PI, -2*PI, 2*PI],
+                                        [2*PI, 2*PI, -2*PI]])
         P={"G": (0,0,0), "X":(0,2*PI,0),  "W":(PI,2*PI,0), \
            "K":(1.5*PI,1.5*PI,0),"L": (PI,PI,PI), "U": (PI/2,2*PI,PI/2)}
         L={"G":"$\Gamma$\n$(0,0,0)$", "X":"$X$\n$(0,2\pi,0)$", "W": "$W$\n$(\pi,2\pi,0)$", \
-- 
2.43.0


From 3abb1f589d8725e075c20ac85259f17d74533016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 47/69] fix: annealing field given as integers does not follow
 its steps

---
 dyson/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyson/model.py b/dyson/model.py
index 45b1c82..d75dd8b 100644
--- a/dyson/model.py
+++ b/dyson/model.py
@@ -13,7 +13,7 @@ class BareFactory:
         self.__Model=Hamiltonian["Name"]
         self.__Interaction=np.array(Hamiltonian["Interaction"])
         self.__ExternalField=np.array(Hamiltonian["ExternalField"])
-        self.__DeltaField=np.array(Anneal["DeltaField"])
+        self.__DeltaField=np.array(Anneal["DeltaField"], dtype=float)
         self.__MaxTauBin=self.__Map.MaxTauBin
         self.__Beta=self.__Map.Beta
         if "Hopping" in Hamiltonian:
-- 
2.43.0


From 273b94745f1c90d04eea44a8ab9e5a3d74ed16fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 48/69] fix: statistics refused in merging should not be added

---
 dyson/collect.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dyson/collect.py b/dyson/collect.py
index 337cf84..895262c 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -29,16 +29,20 @@ class WeightEstimator():
         self.__Weight=Weight
 
     def MergeFromDict(self, WeightDict):
-        """add data from another WeightEstimator, work even if order WeightDict is smaller than MaxOrder"""
+        """add data from another WeightEstimator"""
         datamat=WeightDict[self.__Weight.Name]
         if hasattr(self, "Norm"):
+            #check before adding, otherwise the accumulated data is spoiled by the data refused
+            Assert(self.Norm==datamat['Norm'], "Norm have to be the same to merge statistics")
+            self.__AssertShape(self.WeightAccu.shape, datamat['WeightAccu'].shape)
             self.WeightAccu+=datamat['WeightAccu']
             self.NormAccu+=datamat['NormAccu']
-            Assert(self.Norm==datamat['Norm'], "Norm have to be the same to merge statistics")
         else:
-            self.Norm=datamat['Norm']
-            self.NormAccu=datamat['NormAccu']
-            self.WeightAccu=datamat['WeightAccu']
+            WeightAccu, NormAccu, Norm=datamat['WeightAccu'], datamat['NormAccu'], datamat['Norm']
+            #WeightAccu will be changed in place
+            self.WeightAccu=np.array(WeightAccu)
+            self.NormAccu=NormAccu
+            self.Norm=Norm
 
     def UpdateWeight(self, Name, ErrorThreshold, OrderAccepted, DoesSaveFigure=True):
         """ Weight accumulation data will be destroyed here to save memory!!!"""
@@ -183,9 +187,9 @@ def CollectStatis(_map, runGamma3=False):
             if runGamma3:
                 dataG=Dict["GammaGStatis"]
                 if GammaGNorm is not None:
+                    Assert(GammaGNorm==dataG['Norm'], "Norm have to be the same to merge statistics")
                     GammaGAccu+=dataG['WeightAccu']
                     GammaGNormAccu+=dataG['NormAccu']
-                    Assert(GammaGNorm==dataG['Norm'], "Norm have to be the same to merge statistics")
                 else:
                     GammaGAccu=dataG['WeightAccu']
                     GammaGNormAccu=dataG['NormAccu']
@@ -193,9 +197,9 @@ def CollectStatis(_map, runGamma3=False):
 
                 dataW=Dict["GammaWStatis"]
                 if GammaWNorm is not None:
+                    Assert(GammaWNorm==dataW['Norm'], "Norm have to be the same to merge statistics")
                     GammaWAccu+=dataW['WeightAccu']
                     GammaWNormAccu+=dataW['NormAccu']
-                    Assert(GammaWNorm==dataW['Norm'], "Norm have to be the same to merge statistics")
                     # GammaWFluc.append(dataW['WeightAccu'][0,0,0,0,:]/dataW['NormAccu']*dataW['Norm'])
                 else:
                     GammaWAccu=dataW['WeightAccu']
-- 
2.43.0


From 29176fefaef699c196cd6d6aeb7c346bd9d6390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 49/69] fix: error of an order without any weight is undefined

---
 dyson/collect.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dyson/collect.py b/dyson/collect.py
index 895262c..a74ad00 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -59,9 +59,13 @@ class WeightEstimator():
         DimList=[]
         for order in xrange(1,Shape[0]+1):
             # Order Index is equal to real Order-1
-            #RelativeError=0.0
+            RelativeError=0.0
             Average=0.0
             weight=self.OrderWeight[order-1,...]
+            #in case all components of this order are zero
+            Original=Smoothed=weight[0,0,0,0,0].copy()
+            error=0.0j
+            Position=(order,0,0,0,0,0)
             for index, _ in np.ndenumerate(weight[...,0]):
                 sp1, sub1, sp2, sub2, vol=index
                 y=weight[index] # y is a function of tau
-- 
2.43.0


From 3676f74722a30985a599a20678bd0fa9a7b8eeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 50/69] fix: statistics of another system is not merged

---
 dyson/collect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyson/collect.py b/dyson/collect.py
index a74ad00..7ff53e1 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -31,6 +31,7 @@ class WeightEstimator():
     def MergeFromDict(self, WeightDict):
         """add data from another WeightEstimator"""
         datamat=WeightDict[self.__Weight.Name]
+        self.__AssertShape(datamat['WeightAccu'].shape[1:], self.__Weight.Shape)
         if hasattr(self, "Norm"):
             #check before adding, otherwise the accumulated data is spoiled by the data refused
             Assert(self.Norm==datamat['Norm'], "Norm have to be the same to merge statistics")
-- 
2.43.0


From 8210a9a7cfed84552faf9b32806de4d8c5f4441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:59 +0000
Subject: [PATCH 51/69] fix: big dictionaries can be saved to absolute and
 nested paths

---
 IO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IO.py b/IO.py
index dbac928..efcf4d9 100755
--- a/IO.py
+++ b/IO.py
@@ -34,8 +34,10 @@ def SaveBigDict(filename, root):
         gammaw=dict(root["GammaWStatis"])
         gammaw["WeightAccu"]=array(gammaw["WeightAccu"], dtype=complex64)
         root["GammaWStatis"]=gammaw
-    hkl.dump(root, "_"+filename, mode='w', compression='gzip')
-    os.rename("_"+filename, filename)
+    path, name=os.path.split(filename)
+    temporary=os.path.join(path, "_"+name)
+    hkl.dump(root, temporary, mode='w', compression='gzip')
+    os.rename(temporary, filename)
 
 def LoadBigDict(filename):
     if filename[-4:]!=".hkl":
-- 
2.43.0


From c442d153392854aec05c66aa5fc62c66fd8279ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:59 +0000
Subject: [PATCH 52/69] fix: bin centres of the basis scale with the inverse
 temperature

---
 basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basis.py b/basis.py
index eebaa47..cc2024d 100755
--- a/basis.py
+++ b/basis.py
@@ -34,7 +34,7 @@ class SVDBasis:
         w=np.linspace(-100,100,Nw)
         Nt=self.__MaxTauBin
         t=np.linspace(0, self.__Beta, Nt+1)
-        t=np.array([e+1.0/Nt/2 for e in t[:-1]])
+        t=np.array([e+self.__Beta/Nt/2 for e in t[:-1]])
         kMatrix=np.zeros([Nw,Nt])
         if self.__Basis["BoseFermi"] == "Fermi":
             for i in range(len(w)):
-- 
2.43.0


From b3b49062dc3e589beb5fdafc5989d3bd3ac25eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:27 +0000
Subject: [PATCH 53/69] fix: vertex function expansion compares bin numbers by
 value

---
 dyson/gamma3_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyson/gamma3_calc.py b/dyson/gamma3_calc.py
index 4512c93..ba1160c 100644
--- a/dyson/gamma3_calc.py
+++ b/dyson/gamma3_calc.py
@@ -652,11 +652,11 @@ def SymmetryMapping(_map):
         for t2 in range(t1, TauBin):
             TauSqueeze[t1,t2]=Index
             TauSymFactor[t1,t2]=2
-            if t1 is not t2:
+            if t1!=t2:
                 TauSqueeze[t2,t1]=Index
                 TauSymFactor[t2,t1]=2
                 TauFlag[t2,t1]=1
-            if t1 is t2:
+            if t1==t2:
                 TauSymFactor[t1,t1]=1
             TauRestore.append((t1, t2))
             Index+=1
-- 
2.43.0


From ab44fde95f38d6df994b7a0a16f8dbe10e2b295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:27 +0000
Subject: [PATCH 54/69] fix: susceptibility of several sublattices solves the
 ladder with the factors in order

---
 dyson/calculator.py  | 21 +++++++++++++++++----
 dyson/gamma3_calc.py |  3 +--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/dyson/calculator.py b/dyson/calculator.py
index 08b0b98..a2acef1 100644
--- a/dyson/calculator.py
+++ b/dyson/calculator.py
@@ -114,15 +114,28 @@ def Calculate_Denorminator(W0, Polar, map):
     NSpin, NSub=W0.NSpin, W0.NSublat
     JP=np.einsum("ijklv,klmnvt->ijmnvt",W0.Data, Polar.Data)
     #JP shape: NSpin,NSub,NSpin,NSub,Vol,Tau
-    Temp=JP*Beta/map.MaxTauBin
+    return OneMinus(JP, NSpin, NSub, map), JP
+
+def OneMinus(Product, NSpin, NSub, map):
+    """1-Product in k, omega space, where Product is W0*Polar or Polar*W0"""
+    Temp=Product*map.Beta/map.MaxTauBin
     for tau in range(map.MaxTauBin):
         Temp[...,tau] *= np.cos(tau*np.pi/map.MaxTauBin)
     I=np.eye(NSpin*NSub).reshape([NSpin,NSub,NSpin,NSub])
-    return I[...,np.newaxis,np.newaxis]-Temp, JP
+    return I[...,np.newaxis,np.newaxis]-Temp
+
+def Chi_Dyson(W0, Polar, map):
+    """solve Chi=-Polar+Polar*W0*Chi, W0 and Polar do not commute if there are several sublattices"""
+    ChiTensor=weight.Weight("SmoothT", map, "FourSpins", "Symmetric", "K","W")
+    W0.FFT("K")
+    Polar.FFT("K","W")
+    PJ=np.einsum("ijklvt,klmnv->ijmnvt", Polar.Data, W0.Data)
+    lu_piv,_=weight.LUFactor(OneMinus(PJ, W0.NSpin, W0.NSublat, map))
+    ChiTensor.LUSolve(lu_piv, -Polar.Data)
+    return ChiTensor
 
 def W_Dyson(W0, Polar, map, Lat):
     W=weight.Weight("SmoothT", map, "FourSpins", "Symmetric", "K","W")
-    ChiTensor=weight.Weight("SmoothT", map, "FourSpins", "Symmetric", "K","W")
 
     Polar.FFT("K","W")
     Denorm,JP=Calculate_Denorminator(W0, Polar, map)
@@ -132,7 +145,7 @@ def W_Dyson(W0, Polar, map, Lat):
     lu_piv,Determ=weight.LUFactor(Denorm)
     Check_Denorminator(Denorm, Determ,map)
     W.LUSolve(lu_piv, JPJ)
-    ChiTensor.LUSolve(lu_piv, -Polar.Data)
+    ChiTensor=Chi_Dyson(W0, Polar, map)
     return W, ChiTensor, Determ
 
 def G_Dyson(G0, SigmaDeltaT, Sigma, map):
diff --git a/dyson/gamma3_calc.py b/dyson/gamma3_calc.py
index ba1160c..9b367d9 100644
--- a/dyson/gamma3_calc.py
+++ b/dyson/gamma3_calc.py
@@ -481,10 +481,9 @@ def FullGGGammaG(IrGGGammaG, W0, _map):
     Denorm,JP=calc.Calculate_Denorminator(W0, BKPolar, _map)
 
     # JPJ=np.einsum("ijklvt,klmnv->ijmnvt", JP, W0.Data)
-    BKChiTensor=weight.Weight("SmoothT", _map, "FourSpins", "Symmetric", "K","W")
     lu_piv,Determ=weight.LUFactor(Denorm)
     Check_Denorminator(Denorm, Determ, _map)
-    BKChiTensor.LUSolve(lu_piv, -BKPolar.Data)
+    BKChiTensor=calc.Chi_Dyson(W0, BKPolar, _map)
     return BKChiTensor, Determ
 
 
-- 
2.43.0


From 87d5d0699324a86b8b7eb331eae269eed8f80c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:27 +0000
Subject: [PATCH 55/69] fix: flagged time pairs of the vertex function exchange
 the sites as well

---
 src/module/weight/gamma3.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index 680db83..c77a46a 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -325,6 +325,9 @@ Complex GammaWClass::Weight(const Site &Wr_in, const Site &Wr_out, const Site &U
 
     auto tIndex=t1Index*_MaxTauBinTiny+t2Index;
 
+    if(_TauFlag[tIndex]!=0)
+        coordiIndex=coord_r2*_Vol+coord_r1; //conjugation exchanges the two ends of GammaW
+
     auto Index=_RSqueeze[coordiIndex]*_TauSize+_TauSqueeze[tIndex];
 
     auto SpinIndex=_SpinIndex(Wspin_out, Wspin_in);
@@ -408,6 +411,9 @@ void GammaWClass::Measure(const Site &Wr_in, const Site &Wr_out, const Site &Ur,
 
     auto tauIndex=t1Index*_MaxTauBinTiny+t2Index;
 
+    if(_TauFlag[tauIndex]!=0)
+        coordiIndex=coord_r2*_Vol+coord_r1; //conjugation exchanges the two ends of GammaW
+
     auto Index=_RSqueeze[coordiIndex]*_TauSize+_TauSqueeze[tauIndex];
     auto SpinIndex=_SpinIndex(Wspin_out, Wspin_in);
 
-- 
2.43.0


From 918d34bf96957239722236c13c649e3de352c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:27 +0000
Subject: [PATCH 56/69] fix: a delayed request goes to the handler of its own
 signal

---
 dyson/logger.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dyson/logger.py b/dyson/logger.py
index 0d8e34e..69e7a36 100644
--- a/dyson/logger.py
+++ b/dyson/logger.py
@@ -52,7 +52,12 @@ class DelayedInterrupt(object):
         signal.signal(signal.SIGTERM, self.old_handler_term)
         if self.signal_received:
             log.info('Interrupt successfully dealyed!')
-            self.old_handler_int(*self.signal_received)
+            signum, frame = self.signal_received
+            old = self.old_handler_int if signum == signal.SIGINT else self.old_handler_term
+            if callable(old):
+                old(signum, frame)
+            elif old == signal.SIG_DFL:
+                os.kill(os.getpid(), signum)
 
 def memory_usage():
     import subprocess
-- 
2.43.0


From 267cf88d3eb019a15efdbdc4d55107dc0a64512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:20 +0000
Subject: [PATCH 57/69] fix: collect only mode saves the merged statistics

---
 dyson/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyson/main.py b/dyson/main.py
index dc2f41b..15e65ad 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -383,13 +383,14 @@ if __name__=="__main__":
 
     if args.collect:
         log.info("Collect statistics only...")
-        SigmaMC, PolarMC=collect.CollectStatis(Map)
-        collect.UpdateWeight((SigmaMC, PolarMC), para["Dyson"]["ErrorThreshold"], para["Dyson"]["OrderAccepted"])
+        SigmaMC, PolarMC, _, _=collect.CollectStatis(Map)
         data ={}
         data["Sigma"] = {"Histogram": SigmaMC.ToDict()}
         data["Polar"] = {"Histogram": PolarMC.ToDict()}
         with DelayedInterrupt():
             IO.SaveBigDict(StatisFile, data)
+        #UpdateWeight destroys the accumulated data, so it comes after the output
+        collect.UpdateWeight((SigmaMC, PolarMC), para["Dyson"]["ErrorThreshold"], para["Dyson"]["OrderAccepted"])
         sys.exit(0)
     else:
         Dyson(job["DysonOnly"],  IsNewCalculation, job["SumRule"], para, Map, Lat)
-- 
2.43.0


From 90265c36d5cd27deabda5c159dc400c2c7544e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:20 +0000
Subject: [PATCH 58/69] fix: a failed version of the Dyson loop leaves the
 tables of the last one

---
 dyson/main.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dyson/main.py b/dyson/main.py
index 15e65ad..2569f83 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -189,6 +189,8 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
                 GGGammaG=gamma3.SimpleGG(G, Map)
 
     Gold, Wold = G, W
+    if para["Gamma3"]:
+        GGGammaGold = GGGammaG
 
     #while para["Version"]==0:
     while True:
@@ -197,6 +199,9 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
         try:
             # ratio=None   #set this will not use accumulation!
             ratio = para["Version"]/(para["Version"]+10.0)
+            #a version that fails takes back nothing but its own merging
+            for e in (SigmaDeltaT, Sigma, Polar):
+                e.BackUpRatio=None
             G0,W0=Factory.Build()
             # print W0.Data[:,0,:,0,1]
             log.info("calculating SigmaDeltaT..")
@@ -296,6 +301,8 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
             log.info(green("Version {0} fails due to:\n{1}".format(para["Version"],err)))
             Factory.RevertField(ParaDyson["Annealing"])
             G, W = Gold, Wold
+            if para["Gamma3"]:
+                GGGammaG = GGGammaGold
             SigmaDeltaT.RollBack()
             Sigma.RollBack()
             Polar.RollBack()
@@ -304,6 +311,8 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
             #failure due to statis files collection
             log.info(green("Version {0} fails due to:\n{1}".format(para["Version"],err)))
             G, W = Gold, Wold
+            if para["Gamma3"]:
+                GGGammaG = GGGammaGold
             SigmaDeltaT.RollBack()
             Sigma.RollBack()
             Polar.RollBack()
@@ -320,6 +329,7 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
 	    log.info("everything is going well!")
             Gold, Wold = G, W
             if para["Gamma3"]:
+                GGGammaGold = GGGammaG
                 Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor, GGGammaG, WWGammaW)
             else:
                 Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor)
-- 
2.43.0


From 8c8eb4f75aaa492055648426ae4d47043b42c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:52 +0000
Subject: [PATCH 59/69] fix: old processes are recognized by the number their
 files start with

---
 job_class.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/job_class.py b/job_class.py
index 9a7520c..a052119 100644
--- a/job_class.py
+++ b/job_class.py
@@ -4,7 +4,8 @@ import sys, os, random, re, copy
 
 def get_current_PID(KeyWord):
     workspace=os.path.abspath(".")
-    filelist=sorted([int(e.split('_')[0]) for e in os.listdir(workspace) if (KeyWord in e) and e[0] is not '_'])
+    #only the files of a process start with its PID
+    filelist=sorted(set([int(e.split('_')[0]) for e in os.listdir(workspace) if (KeyWord in e) and re.match(r"\d+_", e)]))
     if len(filelist)==0:
         NextPID=0
     else:
-- 
2.43.0


From 7b6055ab940e37d4695cb9f4b94dd8b21e61b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:52 +0000
Subject: [PATCH 60/69] fix: as many Monte Carlo processes as required are
 started next to the old ones

---
 job_class.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/job_class.py b/job_class.py
index a052119..711c7be 100644
--- a/job_class.py
+++ b/job_class.py
@@ -58,11 +58,10 @@ class JobMonteCarlo(Job):
         #search folder for old jobs, the new pid=largest old pid+1
         PIDList, NextPID=get_current_PID("statis")
         if len(PIDList) is not 0:
-            self.job["DoesLoad"]=True
             self.pid=PIDList[:self.control["__Duplicate"]]
-        else:
-            self.job["DoesLoad"]=False
-            self.pid=range(NextPID, NextPID+self.control["__Duplicate"])
+        #new jobs are added if there are less old jobs than required
+        self.pid=self.pid+range(NextPID, NextPID+self.control["__Duplicate"]-len(self.pid))
+        self.old_pid=PIDList
 
     def __check_parameters__(self, para):
         if Job.__check_parameters__(self, para) is False:
@@ -76,6 +75,7 @@ class JobMonteCarlo(Job):
 
     def to_dict(self):
         pid, Dict=Job.to_dict(self)
+        Dict["Job"]["DoesLoad"]=pid in self.old_pid
         #set Seed here so that each job has it own rng seed
         Dict["Para"]["Markov"]["Seed"] = int(random.random()*2**30)
         Timer=Dict["Para"]["Markov"]["Timer"]
-- 
2.43.0


From a53d4ad4357768119d121980c41898cdfc062a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:52 +0000
Subject: [PATCH 61/69] fix: a job leaves its description unchanged

---
 job_class.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/job_class.py b/job_class.py
index 711c7be..93247ae 100644
--- a/job_class.py
+++ b/job_class.py
@@ -25,6 +25,8 @@ class Job:
         if self.__check_parameters__(para) is False:
             print "Something is wrong with the inlist! Abandon!"
             sys.exit()
+        #the description given by the user should remain unchanged
+        para=copy.deepcopy(para)
         self.control=para.pop("Control")
         self.job=para.pop("Job")
         self.pid = []
-- 
2.43.0


From e51a69b60d228835b4512919a5b123dc661c0199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:52 +0000
Subject: [PATCH 62/69] fix: the job manager reports why it failed

---
 job_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/job_manager.py b/job_manager.py
index adfcebd..1c169f2 100755
--- a/job_manager.py
+++ b/job_manager.py
@@ -5,6 +5,7 @@ import os, sys, copy, signal
 import time
 import subprocess
 import logging
+import traceback
 import IO
 import inlist
 
-- 
2.43.0


From fdd056cd4bcbf83bf68a9ceaff50a8ccd4cb6472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:52 +0000
Subject: [PATCH 63/69] fix: every job that ended is noticed

---
 job_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/job_manager.py b/job_manager.py
index 1c169f2..bf842be 100755
--- a/job_manager.py
+++ b/job_manager.py
@@ -69,7 +69,7 @@ def check_status():
     PROC=(PROCLIST, PROCLIST_BACK)
     #print PROC
     for plist in PROC:
-        for elemp in plist:
+        for elemp in plist[:]:
             if elemp[0].poll() is not None:
                 plist.remove(elemp)
                 logging.info(elemp[1].get_job_name()+" is ended!")
-- 
2.43.0


From 5deab9ad329afc982db6e51350162c746d845490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:12 +0000
Subject: [PATCH 64/69] fix: stopping the job manager drops the jobs in the
 queue

---
 job_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/job_manager.py b/job_manager.py
index bf842be..214615a 100755
--- a/job_manager.py
+++ b/job_manager.py
@@ -144,6 +144,8 @@ def StopTheWorld(signum, frame):
             print elem[1].get_job_name()+" is ended!"
     except:
         traceback.print_exc()
+    #the jobs that still wait in the queue should not be started any more
+    Exit()
 
 if __name__ == "__main__":
     logging.info("Jobs manage daemon is started...")
@@ -163,6 +165,8 @@ if __name__ == "__main__":
         while len(PROCLIST+PROCLIST_BACK) != 0:
             check_status()
             time.sleep(inlist.SLEEP)
+    except SystemExit:
+        pass
     except:
         traceback.print_exc()
     finally:
-- 
2.43.0


From f6fe6131891ce52d8e5571c7e34f348086284633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:46 +0000
Subject: [PATCH 65/69] fix: the staggered susceptibility is measured at zero
 frequency

---
 dyson/measure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyson/measure.py b/dyson/measure.py
index 929bd8d..1712b17 100644
--- a/dyson/measure.py
+++ b/dyson/measure.py
@@ -50,8 +50,9 @@ class Observable:
 
 
         if self.__Lat.Name in ["Chain", "Assymetric_Triangular", "Square", "Cubic", "Checkerboard", "3DCheckerboard", "ValenceBond"]:
-            # Chi.FFT("R", "T")
-            # print Chi.Data[0,0,0,0,:,0]
+            #the static susceptibility is the zero frequency component
+            Chi.FFT("R", "W")
+            BKChi.FFT("R", "W")
             StagK=(PI,)*self.__Map.Dim
             _, ChiK=self.__Lat.FourierTransformation(Chi.Data[0,:,0,:,:,0]*Factor, [StagK,],"Real")
             _, BKChiK=self.__Lat.FourierTransformation(BKChi.Data[0,:,0,:,:,0]*Factor, [StagK,],"Real")
-- 
2.43.0


From 8a27821adfdea0c3982848cb535900a282da8438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:46 +0000
Subject: [PATCH 66/69] fix: the uniform susceptibility of a pyrochlore is
 recorded once per version

---
 dyson/measure.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dyson/measure.py b/dyson/measure.py
index 1712b17..a91e067 100644
--- a/dyson/measure.py
+++ b/dyson/measure.py
@@ -91,7 +91,6 @@ class Observable:
             Chi.FFT("R", "W")
             KList=[(0.0,0.0,0.0), (4*PI, 2*PI ,0)] #High symmetry point with strongest order
             _, ChiK=self.__Lat.FourierTransformation(Chi.Data[0,:,0,:,:,0]*Factor, KList,"Real")
-            self.Append("UnifChi", ChiK[0])
             self.Append("Chi_X(4Pi,2Pi,0)", ChiK[1])
 
         elif self.__Lat.Name in ["Kagome", "Honeycomb","Triangular"]:
-- 
2.43.0


From d2a65847455b901272d40ef9aa377f37d333f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:09 +0000
Subject: [PATCH 67/69] fix: Left, Right and Center return texts that are
 longer than the field

---
 src/utility/utility.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/utility.cpp b/src/utility/utility.cpp
index dc67b50..afd8759 100644
--- a/src/utility/utility.cpp
+++ b/src/utility/utility.cpp
@@ -78,7 +78,7 @@ std::string ToString(const double x, const int width, const int decDigits)
 std::string Center(const string s, const int w)
 {
     stringstream ss, spaces;
-    auto padding = w - s.size(); // count excess room to pad
+    int padding = w - (int)s.size(); // count excess room to pad
     for (int i = 0; i < padding / 2; ++i)
         spaces << " ";
     ss << spaces.str() << s << spaces.str(); // format with padding
@@ -89,7 +89,7 @@ std::string Center(const string s, const int w)
 string Right(const string s, const int w)
 {
     stringstream ss, spaces;
-    auto padding = w - s.size(); // count excess room to pad
+    int padding = w - (int)s.size(); // count excess room to pad
     for (int i = 0; i < padding; ++i)
         spaces << " ";
     ss << spaces.str() << s; // format with padding
@@ -99,7 +99,7 @@ string Right(const string s, const int w)
 string Left(const string s, const int w)
 {
     stringstream ss, spaces;
-    auto padding = w - s.size(); // count excess room to pad
+    int padding = w - (int)s.size(); // count excess room to pad
     for (int i = 0; i < padding; ++i)
         spaces << " ";
     ss << s << spaces.str(); // format with padding
-- 
2.43.0


From 8868e099414e9e51d76cfff744dd1f9ef26efcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:09 +0000
Subject: [PATCH 68/69] fix: planes of wave vectors of anisotropic pyrochlore
 lattices in PlotChi_2D

---
 dyson/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyson/plot.py b/dyson/plot.py
index 38ab86d..90d54c4 100644
--- a/dyson/plot.py
+++ b/dyson/plot.py
@@ -187,8 +187,8 @@ def PlotChi_2D(Chi, lat, DoesSave=True):
         for i in range(-lat.L[0]*4, lat.L[0]*4+1):
             for j in range(-lat.L[1]*4, lat.L[1]*4+1):
                 for k in range(-lat.L[2]*4, lat.L[2]*4+1):
-                    kpoint = i*lat.ReciprocalLatVec[0]+j*lat.ReciprocalLatVec[1]+ \
-                            k*lat.ReciprocalLatVec[2]
+                    kpoint = i*lat.ReciprocalLatVec[0]/lat.L[0]+j*lat.ReciprocalLatVec[1]/lat.L[1]+ \
+                            k*lat.ReciprocalLatVec[2]/lat.L[2]
                     if np.abs(kpoint[0]-kpoint[1])<1e-5:
                         KList_hhl.append((i,j,k))
                     if np.abs(kpoint[2])<1e-5:
-- 
2.43.0


From 62178e03f8567ea67b6c6b9b03289b8197668559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:09 +0000
Subject: [PATCH 69/69] fix: month and file name in log messages

---
 src/utility/logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/logger.cpp b/src/utility/logger.cpp
index 2800c37..05f962b 100644
--- a/src/utility/logger.cpp
+++ b/src/utility/logger.cpp
@@ -131,7 +131,7 @@ void Logger::print(const unsigned int verbosityLevel,
     }
 
     size_t sep = path.find_last_of("\\/");
-    std::string file;
+    std::string file = path;
     if (sep != std::string::npos)
         file = path.substr(sep + 1, path.size() - sep - 1);
 
@@ -145,7 +145,7 @@ void Logger::print(const unsigned int verbosityLevel,
     time_t currTime;
     time(&currTime);
     struct tm* currTm = localtime(&currTime);
-    oss << "[" << (currTm->tm_year - 100) << "/" << currTm->tm_mon << "/" << currTm->tm_mday << " " << currTm->tm_hour << ":" << currTm->tm_min << ":" << currTm->tm_sec << "]";
+    oss << "[" << (currTm->tm_year - 100) << "/" << currTm->tm_mon + 1 << "/" << currTm->tm_mday << " " << currTm->tm_hour << ":" << currTm->tm_min << ":" << currTm->tm_sec << "]";
     oss << "@[" << file << ":" << line << "]\n" << message << std::endl;
     std::string msg = oss.str();
     Logger::lock();
-- 
2.43.0

