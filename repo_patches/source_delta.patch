From b81312fec689908da84c11acc8b3ad2032b991b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:10 +0000
Subject: [PATCH 01/49] fix: return a value from Weight::_LoadBasis and
 EnvMonteCarlo::ListenToMessage

---
 src/environment/envMonteCarlo.cpp | 1 +
 src/module/weight/weight.cpp      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/environment/envMonteCarlo.cpp b/src/environment/envMonteCarlo.cpp
index 9f29913..1b164f4 100644
--- a/src/environment/envMonteCarlo.cpp
+++ b/src/environment/envMonteCarlo.cpp
@@ -202,4 +202,5 @@ bool EnvMonteCarlo::ListenToMessage()
 
         return true;
     }
+    return false;
 }
diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index 1445851..f3a85b2 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -198,5 +198,6 @@ bool weight::Weight::_LoadBasis(real Beta)
     _Number=_Basis.Get<real>("Number");
     _basis=_Basis.Get<vector<basis>>("Basis");
     _BoseBasis.swap(_basis);
+    return true;
 }
 
-- 
2.43.0


From e6d0a2fe96b72f624c1727df300ad8e5dc433eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:29 +0000
Subject: [PATCH 02/49] fix: do not jump to order 0 from a diagram with an
 instantaneous W line

---
 src/module/markov/markov.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module/markov/markov.cpp b/src/module/markov/markov.cpp
index 53faf3c..7710718 100644
--- a/src/module/markov/markov.cpp
+++ b/src/module/markov/markov.cpp
@@ -1585,6 +1585,9 @@ void Markov::JumpToOrder0()
     vertex Ver2 = &Diag->Ver[1];
     if (Ver1->R != Ver2->R)
         return;
+    //JumpBackToOrder1 picks two independent times, so it never gets back to an instantaneous line
+    if (Ver1->NeighW()->IsDelta)
+        return;
 
     Complex weightRatio;
     weightRatio = weight::Norm::Weight() / Diag->Weight;
-- 
2.43.0


From eea55da5abc0165187f05eb1cd2983a8fafcc4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:29 +0000
Subject: [PATCH 03/49] fix: FixDiagram marked W lines as worm lines after the
 worm was deleted

---
 src/module/diagram/diagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/diagram.cpp b/src/module/diagram/diagram.cpp
index ad15532..8568941 100644
--- a/src/module/diagram/diagram.cpp
+++ b/src/module/diagram/diagram.cpp
@@ -146,7 +146,7 @@ bool Diagram::FixDiagram()
         vertex vin = w->NeighVer(IN);
         vertex vout = w->NeighVer(OUT);
 
-        w->IsWorm = (vin==Worm.Ira || vin==Worm.Masha || vout==Worm.Ira ||vout==Worm.Masha);
+        w->IsWorm = IsWorm(vin) || IsWorm(vout);
 
         vin->nW = w;
         vin->Dir = IN;
-- 
2.43.0


From 67b08857da4e7ca9b7388b1753ed33ddc61d50cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:29 +0000
Subject: [PATCH 04/49] fix: Bundle::Add overran its storage when the bundle
 was full

---
 src/module/diagram/component_bundle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/component_bundle.cpp b/src/module/diagram/component_bundle.cpp
index d9136b4..46f8780 100644
--- a/src/module/diagram/component_bundle.cpp
+++ b/src/module/diagram/component_bundle.cpp
@@ -32,7 +32,7 @@ string Bundle<T>::BundleName()
 template <typename T>
 T *Bundle<T>::Add()
 {
-    if (_available_space > MAX_BUNDLE)
+    if (_available_space >= MAX_BUNDLE)
         ABORT("Too many objects >=" << MAX_BUNDLE);
     T *address = _component_name[_available_space];
 
-- 
2.43.0


From a73773e4ebbbca35dfda151709254c236301bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:29 +0000
Subject: [PATCH 05/49] fix: initialize the GammaG and GammaW pointers before
 they are tested

---
 src/module/weight/weight.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index f3a85b2..3939aa9 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -22,6 +22,8 @@ weight::Weight::Weight(bool IsAllSymmetric)
     Polar = nullptr;
     G = nullptr;
     W = nullptr;
+    GammaG = nullptr;
+    GammaW = nullptr;
 }
 
 weight::Weight::~Weight()
-- 
2.43.0


From ed31dfb9e5db433d25e9de958b84fd2fd5f41719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:44 +0000
Subject: [PATCH 06/49] fix: InterruptHandler kept reporting a delay after a
 section without signals was resumed

---
 src/utility/abort.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/abort.cpp b/src/utility/abort.cpp
index ebe2f1e..97b1d3d 100644
--- a/src/utility/abort.cpp
+++ b/src/utility/abort.cpp
@@ -47,9 +47,10 @@ void InterruptHandler::Resume()
 {
     signal(SIGINT, __SignalHandler);
     signal(SIGTERM, __SignalHandler);
-    if (__IsDelaying && (__Signal == SIGINT || __Signal == SIGTERM)) {
+    bool WasDelaying = __IsDelaying;
+    __IsDelaying = false;
+    if (WasDelaying && (__Signal == SIGINT || __Signal == SIGTERM)) {
         __SignalHandler(__Signal);
         __Signal = -1;
-        __IsDelaying = false;
     }
 }
-- 
2.43.0


From 80316754c0778bc6b53d89832381903a2ab5eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:44 +0000
Subject: [PATCH 07/49] fix: CheckDiagram missed worm lines without a worm and
 a wrong WMeasure

---
 src/module/diagram/diagram_check.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/module/diagram/diagram_check.cpp b/src/module/diagram/diagram_check.cpp
index 2d45d90..cfbe10a 100644
--- a/src/module/diagram/diagram_check.cpp
+++ b/src/module/diagram/diagram_check.cpp
@@ -87,9 +87,12 @@ bool Diagram::_CheckStatus()
 
     totalmeasure = 0;
     for (int i = 0; i < W.HowMany(); i++) {
-        if (W(i)->IsMeasure)
+        if (W(i)->IsMeasure) {
             totalmeasure += 1;
-        if (W(i)->IsWorm && Worm.Ira->NeighW() != W(i) && Worm.Masha->NeighW() != W(i))
+            if (W(i) != WMeasure)
+                ABORT("WMeasure error!" + W(i)->PrettyString());
+        }
+        if (W(i)->IsWorm && (!Worm.Exist || (Worm.Ira->NeighW() != W(i) && Worm.Masha->NeighW() != W(i))))
             ABORT("W IsWorm status error! no worm!" + W(i)->PrettyString());
         if (Worm.Exist)
             if ((!W(i)->IsWorm) && (Worm.Ira->NeighW() == W(i) || Worm.Masha->NeighW() == W(i)))
-- 
2.43.0


From 9bbd0581aa5498da4535a6fcccda8da76a24be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:44 +0000
Subject: [PATCH 08/49] fix: printing the order statistics overwrote the worm
 space reweighting factor

---
 src/module/markov/markov_monitor.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/module/markov/markov_monitor.cpp b/src/module/markov/markov_monitor.cpp
index b78d2ba..e6a0ce9 100644
--- a/src/module/markov/markov_monitor.cpp
+++ b/src/module/markov/markov_monitor.cpp
@@ -126,7 +126,6 @@ void MarkovMonitor::PrintOrderReWeight()
         output << "Order0 :" << weight[0] << " Order" << i << " :" << weight[i] << endl;
     }
 
-    Para->WormSpaceReweight = phyweight / wormweight;
     output << "Worm confs:" << wormweight << " Physics confs: " << phyweight <<  endl;
     LOG_INFO(output.str());
 
-- 
2.43.0


From 69cad8666c49b07aa66ef736023b710643eb0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:44 +0000
Subject: [PATCH 09/49] fix: AdjustOrderReWeight changed the order factors
 before it gave up

---
 src/module/markov/markov_monitor.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/module/markov/markov_monitor.cpp b/src/module/markov/markov_monitor.cpp
index e6a0ce9..919b0bc 100644
--- a/src/module/markov/markov_monitor.cpp
+++ b/src/module/markov/markov_monitor.cpp
@@ -176,6 +176,11 @@ bool MarkovMonitor::AdjustOrderReWeight()
         weight[i] = WormEstimator[i].Value() + PhyEstimator[i].Value();
         wormweight += WormEstimator[i].Value();
         phyweight += PhyEstimator[i].Value();
+    }
+    if (Zero(wormweight))
+        return false;
+
+    for (int i = 1; i <= Para->Order; i++) {
         if (Zero(weight[i]))
             continue;
         Para->OrderReWeight[i] *= Para->OrderTimeRatio[i] * weight[0] / weight[i];
@@ -183,9 +188,6 @@ bool MarkovMonitor::AdjustOrderReWeight()
     }
     Para->OrderReWeight[0] = 1.0;
 
-    if (Zero(wormweight))
-        return false;
-
     Para->WormSpaceReweight *= phyweight / wormweight;
     output << "Worm confs:" << wormweight << " Physics confs: " << phyweight << " => " << Para->WormSpaceReweight << endl;
     LOG_INFO(output.str());
-- 
2.43.0


From bf78ad54e82f5bb9e646c1d19388a6a5d05edbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:44 +0000
Subject: [PATCH 10/49] fix: WeightEstimator::Anneal changed the estimates and
 never adopted the new temperature

---
 src/module/weight/weight_estimator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/module/weight/weight_estimator.cpp b/src/module/weight/weight_estimator.cpp
index fddd18f..d39d0f7 100644
--- a/src/module/weight/weight_estimator.cpp
+++ b/src/module/weight/weight_estimator.cpp
@@ -39,7 +39,11 @@ void WeightEstimator::Anneal(real Beta)
     //real NormFactor = 1.0 / _NormAccu * _Norm;
     //has the same value before Beta is changed
     //so that GetWeightArray will give a same weight function
-    _NormAccu *= pow((Beta / _Beta), 2.0);
+    //_Norm is proportional to 1/Beta^2, see Allocate
+    real ratio = pow((_Beta / Beta), 2.0);
+    _Norm *= ratio;
+    _NormAccu *= ratio;
+    _Beta = Beta;
 }
 
 void WeightEstimator::MeasureNorm(real weight)
-- 
2.43.0


From db05ae51a5be8e8c29699ae9ba15171cc66a68d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:16 +0000
Subject: [PATCH 11/49] fix: the three-point tables kept the old temperature
 after annealing

---
 src/module/weight/gamma3.cpp | 21 +++++++++++++++++++++
 src/module/weight/gamma3.h   |  2 ++
 src/module/weight/weight.cpp |  4 ++++
 3 files changed, 27 insertions(+)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index a953a96..1a6fb7d 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -35,6 +35,17 @@ GammaGClass::GammaGClass(const Lattice &lat, real beta, uint MaxTauBin, real Nor
     ClearStatistics();
 }
 
+void GammaGClass::Reset(real Beta)
+{
+    //keep _WeightAccu/_NormAccu*_Norm, see WeightEstimator::Anneal; _Norm is proportional to 1/Beta^3
+    real ratio = pow(_Beta / Beta, 3.0);
+    _Norm *= ratio;
+    _NormAccu *= ratio;
+    _Beta = Beta;
+    _dBetaInverse = _MaxTauBin / _Beta;
+    _Map = IndexMapSPIN2(Beta, _Map.MaxTauBin, _Map.Lat, _Map.Symmetry);
+}
+
 Complex GammaGClass::Weight(const Site &Gr_in, const Site &Gr_out, const Site &Ur,
                             real Gt_in, real Gt_out, real Ut, spin Gspin_in, spin Gspin_out, spin Uspin) const
 {
@@ -211,6 +222,16 @@ GammaWClass::GammaWClass(const Lattice &lat, real beta, uint MaxTauBinTiny,  std
 //    ClearStatistics();
 }
 
+void GammaWClass::Reset(real Beta)
+{
+    real ratio = pow(_Beta / Beta, 3.0);
+    _Norm *= ratio;
+    _NormAccu *= ratio;
+    _Beta = Beta;
+    _dBetaInverse = _MaxTauBinTiny / _Beta;
+    _Map = IndexMapSPIN4(Beta, _Map.MaxTauBin, _Map.Lat, _Map.Symmetry);
+}
+
 uint GammaWClass::_SpinIndex(spin * L, spin * R) const {
     if(L[0] == UP && L[1] == UP && R[0] == UP && R[1] == UP)
         return 0;
diff --git a/src/module/weight/gamma3.h b/src/module/weight/gamma3.h
index 2d17c42..638d357 100755
--- a/src/module/weight/gamma3.h
+++ b/src/module/weight/gamma3.h
@@ -30,6 +30,7 @@ namespace weight {
 
         bool StatisFromDict(const Dictionary &);
         bool WeightFromDict(const Dictionary &);
+        void Reset(real Beta);
 
         Dictionary StatisToDict();
         Dictionary WeightToDict();
@@ -69,6 +70,7 @@ namespace weight {
 
         bool StatisFromDict(const Dictionary &);
         bool WeightFromDict(const Dictionary &);
+        void Reset(real Beta);
         Dictionary StatisToDict();
         Dictionary WeightToDict();
 
diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index 3939aa9..748c466 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -66,6 +66,10 @@ void weight::Weight::Anneal(const ParaMC &para)
     W->Reset(para.Beta);
     Sigma->Reset(para.Beta);
     Polar->Reset(para.Beta);
+    if (GammaG != nullptr)
+        GammaG->Reset(para.Beta);
+    if (GammaW != nullptr)
+        GammaW->Reset(para.Beta);
 }
 
 bool weight::Weight::FromDict(const Dictionary &dict, flag _flag, const para::ParaMC &para)
-- 
2.43.0


From dce6355227e7d71f58bdddce601fa9eca2b89891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:16 +0000
Subject: [PATCH 12/49] fix: the normalization of the W three-point statistics
 was not initialized

---
 src/module/weight/gamma3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index 1a6fb7d..0f4de4b 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -185,6 +185,7 @@ GammaWClass::GammaWClass(const Lattice &lat, real beta, uint MaxTauBinTiny,  std
     _Vol=Vol;
     _Beta = _Map.Beta;
     _Norm = Norm * pow(_Map.MaxTauBin / _Beta, 2.0) / _Beta / Vol;
+    _NormAccu = 0.0;
 
     _MaxTauBinTiny = MaxTauBinTiny;
     _dBetaInverse = _MaxTauBinTiny/_Beta;
-- 
2.43.0


From 32a768b1594a38f9bdec7902439e691d8e1b25fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:16 +0000
Subject: [PATCH 13/49] fix: a diagram of order zero became one of order one
 when it was reset or reloaded

---
 src/module/diagram/diagram.cpp    | 9 +++++++--
 src/module/diagram/diagram_IO.cpp | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/module/diagram/diagram.cpp b/src/module/diagram/diagram.cpp
index 8568941..5094953 100644
--- a/src/module/diagram/diagram.cpp
+++ b/src/module/diagram/diagram.cpp
@@ -120,7 +120,9 @@ bool Diagram::FixDiagram()
     ASSERT_ALLWAYS(Lat != nullptr, "Lattice is not defined yet!");
     ASSERT_ALLWAYS(GWeight != nullptr && WWeight != nullptr, "G and W have been initialized yet!");
 
-    Order = W.HowMany();
+    //a diagram of order zero keeps the lines it will come back with
+    if (Order != 0)
+        Order = W.HowMany();
     Worm.Weight = 1.0;
     
     if(Worm.Exist){
@@ -163,7 +165,10 @@ bool Diagram::FixDiagram()
         //TODO: Do something here if you want to fix vertex
     }
 
-    Weight *= SignFermiLoop * (Order % 2 == 0 ? 1 : -1);
+    if (Order == 0)
+        Weight = Norm::Weight();
+    else
+        Weight *= SignFermiLoop * (Order % 2 == 0 ? 1 : -1);
     Phase = phase(Weight);
     return true;
 }
diff --git a/src/module/diagram/diagram_IO.cpp b/src/module/diagram/diagram_IO.cpp
index aaf891f..f0bdbdb 100644
--- a/src/module/diagram/diagram_IO.cpp
+++ b/src/module/diagram/diagram_IO.cpp
@@ -136,6 +136,7 @@ Dictionary Diagram::ToDict()
         Config["Worm"] = _ToDict(Worm);
     }
     Config["SignFermiLoop"] = SignFermiLoop;
+    Config["Order"] = Order;
     return Config;
 }
 
@@ -159,6 +160,7 @@ bool Diagram::FromDict(const Dictionary& Config)
         _FromDict(Config.Get<Dictionary>("Worm"), Worm);
     }
     SignFermiLoop = Config.Get<real>("SignFermiLoop");
+    Order = Config.HasKey("Order") ? Config.Get<int>("Order") : W.HowMany();
     FixDiagram();
     return true;
 }
-- 
2.43.0


From 0ca5a50ee82ddf5657522c11b43c496190689466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:16 +0000
Subject: [PATCH 14/49] fix: reading a spin from a dictionary recursed forever

---
 src/utility/pyglue/type_cast.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility/pyglue/type_cast.cpp b/src/utility/pyglue/type_cast.cpp
index 42d72ee..e14d2c2 100644
--- a/src/utility/pyglue/type_cast.cpp
+++ b/src/utility/pyglue/type_cast.cpp
@@ -125,7 +125,11 @@ bool Convert(Object obj, ITypeCast& value)
 
 bool Convert(Object obj, spin& val)
 {
-    return Convert(obj, val);
+    int num;
+    if (!Convert(obj, num))
+        return false;
+    val = (spin)num;
+    return true;
 }
 bool Convert(Object obj, Momentum& val)
 {
-- 
2.43.0


From 1345e8c3f3eb1391dc0d330c8c08572c87a71751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:16 +0000
Subject: [PATCH 15/49] fix: mixed real/complex sums and differences

---
 src/utility/complex.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/complex.cpp b/src/utility/complex.cpp
index 154eb7b..9799407 100644
--- a/src/utility/complex.cpp
+++ b/src/utility/complex.cpp
@@ -134,12 +134,12 @@ Complex operator+(const Complex& lhs, const Complex& rhs)
 
 Complex operator+(real lhs, const Complex& rhs)
 {
-    return Complex(rhs.Re + lhs, rhs.Im + lhs);
+    return Complex(lhs + rhs.Re, rhs.Im);
 }
 
 Complex operator+(const Complex& lhs, real rhs)
 {
-    return Complex(lhs.Re + rhs, lhs.Im + rhs);
+    return Complex(lhs.Re + rhs, lhs.Im);
 }
 
 Complex operator+(const Complex& lhs)
@@ -154,12 +154,12 @@ Complex operator-(const Complex& lhs, const Complex& rhs)
 
 Complex operator-(real lhs, const Complex& rhs)
 {
-    return Complex(rhs.Re - lhs, rhs.Im - lhs);
+    return Complex(lhs - rhs.Re, -rhs.Im);
 }
 
 Complex operator-(const Complex& lhs, real rhs)
 {
-    return Complex(lhs.Re + rhs, lhs.Im + rhs);
+    return Complex(lhs.Re - rhs, lhs.Im);
 }
 
 Complex operator-(const Complex& c)
-- 
2.43.0


From b357ad0e39f72391ba42fe1b4658c9883f2a8100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:16 +0000
Subject: [PATCH 16/49] fix: arg of negative reals, and real powers of zero and
 nonzero numbers

---
 src/utility/complex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/complex.h b/src/utility/complex.h
index d021ba8..64a9bdc 100644
--- a/src/utility/complex.h
+++ b/src/utility/complex.h
@@ -98,7 +98,7 @@ inline real mod(const Complex& c)
 
 inline real arg(const Complex& c)
 {
-    return c.Im != 0.0 ? atan2(c.Im, c.Re) : 0.0;
+    return IsZero(c) ? 0.0 : atan2(c.Im, c.Re);
 }
 
 inline Complex phase(const Complex& c)
@@ -151,7 +151,7 @@ inline Complex pow(const Complex& z, const Complex& w)
 
 inline Complex pow(const Complex& z, real u)
 {
-    if (IsZero(0.0))
+    if (IsZero(z))
         return u == 0.0 ? 1.0 : 0.0;
     real logr = 0.5 * log(mod2(z));
     real theta = u * arg(z);
-- 
2.43.0


From e431a03925b50df13608e5863c7b55aec1f86536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:38 +0000
Subject: [PATCH 17/49] fix: SaveDict destroyed the previous file before the
 new one was complete

---
 IO.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/IO.py b/IO.py
index 0c3f708..f985b33 100755
--- a/IO.py
+++ b/IO.py
@@ -11,8 +11,14 @@ set_printoptions(threshold=nan) #make sure numpy will print all elements, so tha
 def SaveDict(filename, mode, root):
     if filename[-4:]!=".txt":
         filename+=".txt"
-    with open(filename, mode) as f:
-        f.write(pprint.pformat(root))
+    if mode=="w":
+        #a crash while writing must not destroy the old file
+        with open(filename+".tmp", mode) as f:
+            f.write(pprint.pformat(root))
+        os.rename(filename+".tmp", filename)
+    else:
+        with open(filename, mode) as f:
+            f.write(pprint.pformat(root))
 
 def LoadDict(filename):
     if filename[-4:]!=".txt":
-- 
2.43.0


From ebbf62a8ff4094e1c8b955ca01f8151a619e360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:20 +0000
Subject: [PATCH 18/49] fix: annealing to a higher temperature left times
 outside the new period

---
 src/environment/envMonteCarlo.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/environment/envMonteCarlo.cpp b/src/environment/envMonteCarlo.cpp
index 1b164f4..f978213 100644
--- a/src/environment/envMonteCarlo.cpp
+++ b/src/environment/envMonteCarlo.cpp
@@ -172,7 +172,12 @@ bool EnvMonteCarlo::ListenToMessage()
             LOG_WARNING("Annealing Failed!");
             return false;
         }
+        real OldBeta = Para.Beta;
         Para.UpdateWithMessage(Message_);
+        //all times must stay within [0, Beta) when the temperature goes up
+        if (Para.Beta < OldBeta)
+            for (int i = 0; i < Diag.Ver.HowMany(); i++)
+                Diag.Ver(i)->Tau *= Para.Beta / OldBeta;
 
         Weight.FromDict(weight_, weight::GW, Para);
 
-- 
2.43.0


From 5c350d4df510cac4fa2083eedf1f02e6221c77bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:31 +0000
Subject: [PATCH 19/49] fix: integer draws from wide intervals left the
 interval or divided by zero

---
 src/utility/rng.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utility/rng.h b/src/utility/rng.h
index 68f4393..f51f318 100644
--- a/src/utility/rng.h
+++ b/src/utility/rng.h
@@ -53,7 +53,9 @@ public:
     //Generator integer random numbers in the closed interval [from, thru]
     inline int irn(int from, int thru)
     {
-        return _eng() % (thru - from + 1) + from;
+        //the number of values does not fit into int (or even into 32 bits) for wide intervals
+        unsigned long long size = (unsigned long long)((long long)thru - from + 1);
+        return (int)((long long)(_eng() % size) + from);
     }
     //    inline int nrn(real mean, real std)
     //    {
-- 
2.43.0


From 3af5a09caee50d1ac5b94a328f734eeb64ac6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:11 +0000
Subject: [PATCH 20/49] fix: clearing an estimator kept its old mean and error

---
 src/estimator/estimator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estimator/estimator.cpp b/src/estimator/estimator.cpp
index 9784ae8..3d33a6f 100644
--- a/src/estimator/estimator.cpp
+++ b/src/estimator/estimator.cpp
@@ -94,6 +94,7 @@ void Estimator<T>::ClearStatistics()
     _ratio = 1.0;
     _norm = 1.0;
     //small enough non-zero number to avoid NAN
+    _value = EstimateClass<T>();
 }
 
 template <typename T>
-- 
2.43.0


From 933876ace72b32bda765cbeea6437459bbeb23e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:11 +0000
Subject: [PATCH 21/49] fix: an exported estimate was stale unless it had been
 asked for before

---
 src/estimator/estimator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estimator/estimator.cpp b/src/estimator/estimator.cpp
index 3d33a6f..41896f2 100644
--- a/src/estimator/estimator.cpp
+++ b/src/estimator/estimator.cpp
@@ -239,6 +239,7 @@ bool Estimator<T>::FromDict(const Dictionary& dict)
 template <typename T>
 Dictionary Estimator<T>::ToDict()
 {
+    _update();
     vector<uint> shape = { _end };
     Dictionary dict;
     dict["Norm"] = _norm;
-- 
2.43.0


From 320ffd671401da2ed57c4a68c570c23376b7ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:11 +0000
Subject: [PATCH 22/49] fix: a reloaded estimator forgot how its history is
 thinned

---
 src/estimator/estimator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/estimator/estimator.cpp b/src/estimator/estimator.cpp
index 41896f2..b6db90d 100644
--- a/src/estimator/estimator.cpp
+++ b/src/estimator/estimator.cpp
@@ -232,6 +232,10 @@ bool Estimator<T>::FromDict(const Dictionary& dict)
     _end = hist_.Shape()[0];
     _accumulator = dict.Get<T>("Accu");
     _norm = dict.Get<real>("Norm");
+    if (dict.HasKey("Interval"))
+        _interval = dict.Get<int>("Interval");
+    if (dict.HasKey("Counter"))
+        _counter = dict.Get<int>("Counter");
     _update();
     return true;
 }
@@ -245,6 +249,8 @@ Dictionary Estimator<T>::ToDict()
     dict["Norm"] = _norm;
     dict["Accu"] = _accumulator;
     dict["History"] = Python::ArrayObject(_history, shape, 1);
+    dict["Interval"] = (int)_interval;
+    dict["Counter"] = (int)_counter;
     Dictionary est;
     est["Mean"] = Python::AnyObject(_value.Mean);
     est["Error"] = Python::AnyObject(_value.Error);
-- 
2.43.0


From 6ca3f2dd41e09d761e1e2af9b641df38e49f0315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:11 +0000
Subject: [PATCH 23/49] fix: looking up an unknown name in a bundle returned
 the first estimator

---
 src/estimator/estimator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estimator/estimator.cpp b/src/estimator/estimator.cpp
index b6db90d..d5dbb1f 100644
--- a/src/estimator/estimator.cpp
+++ b/src/estimator/estimator.cpp
@@ -334,7 +334,10 @@ Estimator<T>& EstimatorBundle<T>::operator[](int index)
 template <typename T>
 Estimator<T>& EstimatorBundle<T>::operator[](string name)
 {
-    return _EstimatorVector[_EstimatorMap[name]];
+    auto it = _EstimatorMap.find(name);
+    if (it == _EstimatorMap.end())
+        ABORT("There is no estimator named " << name << "!");
+    return _EstimatorVector[it->second];
 }
 
 /**
-- 
2.43.0


From 5b94e632aa7a97739da8015a0b578631d0a5d182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:17 +0000
Subject: [PATCH 24/49] fix: SaveDict rounded the elements of arrays to eight
 digits

---
 IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IO.py b/IO.py
index f985b33..3617c27 100755
--- a/IO.py
+++ b/IO.py
@@ -6,7 +6,7 @@ import hickle as hkl
 from numpy import *
 #all numpy symbols have to be imported as * in order to read "array([...])" in .txt file with LoadDict function
 
-set_printoptions(threshold=nan) #make sure numpy will print all elements, so that SaveDict and LoadDict will work even for very large array
+set_printoptions(threshold=nan, precision=25) #make sure numpy will print all elements with all their digits, so that SaveDict and LoadDict will work even for very large array
 
 def SaveDict(filename, mode, root):
     if filename[-4:]!=".txt":
-- 
2.43.0


From 66e4fdc72e0f4fc45e7513d42d219bbb76c09f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:17 +0000
Subject: [PATCH 25/49] fix: the saved GammaW statistics were read back as
 garbage

---
 IO.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/IO.py b/IO.py
index 3617c27..fd65b08 100755
--- a/IO.py
+++ b/IO.py
@@ -43,4 +43,8 @@ def LoadBigDict(filename):
         gammaw=data["WWGammaW"]
         if "SmoothT" in gammaw.keys():
             gammaw["SmoothT"]=array(gammaw["SmoothT"], dtype=complex)
+    if "GammaWStatis" in data.keys():
+        #SaveBigDict stores it in single precision, GammaWClass reads double precision
+        gammaw=data["GammaWStatis"]
+        gammaw["WeightAccu"]=array(gammaw["WeightAccu"], dtype=complex)
     return data
-- 
2.43.0


From 33f3d754c989e5ded0f3bac0de23a06511d3453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:36 +0000
Subject: [PATCH 26/49] fix: SaveBigDict could not save into another directory

---
 IO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IO.py b/IO.py
index fd65b08..80bd184 100755
--- a/IO.py
+++ b/IO.py
@@ -32,8 +32,10 @@ def SaveBigDict(filename, root):
     if "GammaWStatis" in root.keys():
         gammaw=root["GammaWStatis"]
         gammaw["WeightAccu"]=array(gammaw["WeightAccu"], dtype=complex64)
-    hkl.dump(root, "_"+filename, mode='w', compression='gzip')
-    os.rename("_"+filename, filename)
+    #the file may be in another directory
+    tempname=os.path.join(os.path.dirname(filename), "_"+os.path.basename(filename))
+    hkl.dump(root, tempname, mode='w', compression='gzip')
+    os.rename(tempname, filename)
 
 def LoadBigDict(filename):
     if filename[-4:]!=".hkl":
-- 
2.43.0


From 9eaa84f9655df1aaf014b4582769104ad251def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 27/49] fix: a failed load left part of the data in the
 dictionary

---
 src/utility/dictionary.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility/dictionary.cpp b/src/utility/dictionary.cpp
index c74228a..803decf 100644
--- a/src/utility/dictionary.cpp
+++ b/src/utility/dictionary.cpp
@@ -24,7 +24,11 @@ Object Dictionary::ToPy() const
 
 bool Dictionary::FromPy(const Object& obj)
 {
-    return Python::Convert(obj, _Map);
+    PythonMap map;
+    if (!Python::Convert(obj, map))
+        return false;
+    _Map.insert(map.begin(), map.end());
+    return true;
 }
 
 Python::AnyObject& Dictionary::operator[](const std::string& key)
-- 
2.43.0


From 014bdf0ba1826ceae62c15545a598caa578a0fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 28/49] fix: statistics with more orders than the table do not
 overrun it when loaded

---
 src/module/weight/weight_array.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/module/weight/weight_array.cpp b/src/module/weight/weight_array.cpp
index 6e1a4dc..b2a06f8 100644
--- a/src/module/weight/weight_array.cpp
+++ b/src/module/weight/weight_array.cpp
@@ -11,6 +11,7 @@
 #include "utility/dictionary.h"
 #include "index_map.h"
 #include <math.h>
+#include <algorithm>
 
 using namespace std;
 
@@ -37,7 +38,8 @@ void WeightArray<DIM>::Assign(const Complex* source, uint size)
     ASSERT_ALLWAYS(IsAllocated, "Array should be allocated first!");
     if (_Data == source)
         return;
-    std::copy(source, source + size, _Data);
+    //the source may have more elements than this array, e.g. more orders
+    std::copy(source, source + std::min(size, _Size), _Data);
 }
 
 template <uint DIM>
-- 
2.43.0


From c9866940c1a3084efef0dd2907c430d629601610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 29/49] fix: a job without a statistics file could not be
 loaded

---
 src/environment/envMonteCarlo.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/environment/envMonteCarlo.cpp b/src/environment/envMonteCarlo.cpp
index f978213..95cb111 100644
--- a/src/environment/envMonteCarlo.cpp
+++ b/src/environment/envMonteCarlo.cpp
@@ -74,20 +74,36 @@ bool EnvMonteCarlo::Load()
     Dictionary GW_;
     GW_.BigLoad(Job.WeightFile);
     Dictionary statis_;
-    statis_.BigLoad(Job.StatisticsFile);
+    bool DoesStatisFileExist;
+    try {
+        statis_.BigLoad(Job.StatisticsFile);
+        DoesStatisFileExist = true;
+    }
+    catch (IOInvalid e) {
+        //e.g. the first job never came to save its statistics
+        LOG_WARNING("Load " << Job.StatisticsFile << " failed, start with empty statistics!");
+        DoesStatisFileExist = false;
+    }
     Weight.FromDict(GW_, weight::GW, Para);
-    Weight.FromDict(statis_, weight::SigmaPolar, Para);
+    if (DoesStatisFileExist)
+        Weight.FromDict(statis_, weight::SigmaPolar, Para);
+    else
+        Weight.BuildNew(weight::SigmaPolar, Para);
     if(Para.runGamma3)
     {
         Weight.FromDict(GW_, weight::GammaGW, Para);
-        Weight.FromDict(statis_, weight::GammaGWStatis, Para);
+        if (DoesStatisFileExist)
+            Weight.FromDict(statis_, weight::GammaGWStatis, Para);
     }
     LOG_INFO(DoesParaFileExit);
     if (DoesParaFileExit)
         Diag.FromDict(para_.Get<Dictionary>(ConfigKey), Para.Lat, *Weight.G, *Weight.W);
     else
         Diag.BuildNew(Para.Lat, *Weight.G, *Weight.W);
-    MarkovMonitor.FromDict(statis_, Para, Diag, Weight);
+    if (DoesStatisFileExist)
+        MarkovMonitor.FromDict(statis_, Para, Diag, Weight);
+    else
+        MarkovMonitor.BuildNew(Para, Diag, Weight);
     Markov.BuildNew(Para, Diag, Weight);
     return true;
 }
-- 
2.43.0


From 7b805a77ffb95f88b7eee97d695a43e130eba67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:31 +0000
Subject: [PATCH 30/49] fix: a worker's file was merged in part when the rest
 of it did not fit

The accumulated weights were added before the norm was compared, Sigma was
merged although Polar or the three point statistics of the same file failed,
and numpy spread a single order over all the orders of the other files.
---
 dyson/collect.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/dyson/collect.py b/dyson/collect.py
index 337cf84..793fe6b 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -23,18 +23,34 @@ def Smooth(x,y):
     si = LSQUnivariateSpline(x, y.imag, t)
     return sr(x)+si(x)*1j, (sr.get_residual()/len(x))**0.5+(si.get_residual()/len(x))**0.5*1j
 
+def CheckStatis(datamat, WeightAccu=None, Norm=None):
+    """raise an exception if datamat is incomplete, or can not be added to WeightAccu"""
+    accu, _, norm=datamat['WeightAccu'], datamat['NormAccu'], datamat['Norm']
+    if WeightAccu is not None:
+        Assert(Norm==norm, "Norm have to be the same to merge statistics")
+        #numpy would spread a single order over all the others
+        Assert(WeightAccu.shape==accu.shape, "Shapes have to be the same to merge statistics")
+
 class WeightEstimator():
     def __init__(self, Weight): 
         self.__Map=Weight.Map
         self.__Weight=Weight
 
+    def CheckDict(self, WeightDict):
+        """raise an exception if data from another WeightEstimator can not be added"""
+        datamat=WeightDict[self.__Weight.Name]
+        if hasattr(self, "Norm"):
+            CheckStatis(datamat, self.WeightAccu, self.Norm)
+        else:
+            CheckStatis(datamat)
+
     def MergeFromDict(self, WeightDict):
-        """add data from another WeightEstimator, work even if order WeightDict is smaller than MaxOrder"""
+        """add data from another WeightEstimator"""
+        self.CheckDict(WeightDict)
         datamat=WeightDict[self.__Weight.Name]
         if hasattr(self, "Norm"):
             self.WeightAccu+=datamat['WeightAccu']
             self.NormAccu+=datamat['NormAccu']
-            Assert(self.Norm==datamat['Norm'], "Norm have to be the same to merge statistics")
         else:
             self.Norm=datamat['Norm']
             self.NormAccu=datamat['NormAccu']
@@ -177,6 +193,13 @@ def CollectStatis(_map, runGamma3=False):
         try:
             log.info("Merging {0} ...".format(f));
             Dict=IO.LoadBigDict(f)
+            #a file is either merged as a whole or not at all
+            SigmaSmoothT.CheckDict(Dict['Sigma']['Histogram'])
+            PolarSmoothT.CheckDict(Dict['Polar']['Histogram'])
+            if runGamma3:
+                CheckStatis(Dict["GammaGStatis"], GammaGAccu, GammaGNorm)
+                CheckStatis(Dict["GammaWStatis"], GammaWAccu, GammaWNorm)
+
             SigmaSmoothT.MergeFromDict(Dict['Sigma']['Histogram'])
             PolarSmoothT.MergeFromDict(Dict['Polar']['Histogram'])
 
@@ -185,7 +208,6 @@ def CollectStatis(_map, runGamma3=False):
                 if GammaGNorm is not None:
                     GammaGAccu+=dataG['WeightAccu']
                     GammaGNormAccu+=dataG['NormAccu']
-                    Assert(GammaGNorm==dataG['Norm'], "Norm have to be the same to merge statistics")
                 else:
                     GammaGAccu=dataG['WeightAccu']
                     GammaGNormAccu=dataG['NormAccu']
@@ -195,7 +217,6 @@ def CollectStatis(_map, runGamma3=False):
                 if GammaWNorm is not None:
                     GammaWAccu+=dataW['WeightAccu']
                     GammaWNormAccu+=dataW['NormAccu']
-                    Assert(GammaWNorm==dataW['Norm'], "Norm have to be the same to merge statistics")
                     # GammaWFluc.append(dataW['WeightAccu'][0,0,0,0,:]/dataW['NormAccu']*dataW['Norm'])
                 else:
                     GammaWAccu=dataW['WeightAccu']
-- 
2.43.0


From f8f79f9c1b6f6f4dff9d7135ade1a5cab261e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 31/49] fix: rolling back a failed version undid versions that
 had succeeded

RollBack subtracted the last merge even if it belonged to an earlier version
or had been undone before, and after the first merge it left the failed data.
It now restores what was there before the last merge, once.
---
 dyson/main.py   |  4 ++++
 dyson/weight.py | 25 +++++++++++--------------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/dyson/main.py b/dyson/main.py
index dc2f41b..d7e1c99 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -197,6 +197,10 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
         try:
             # ratio=None   #set this will not use accumulation!
             ratio = para["Version"]/(para["Version"]+10.0)
+            #a failure of this version must not undo what previous versions have merged
+            SigmaDeltaT.KeepMerge()
+            Sigma.KeepMerge()
+            Polar.KeepMerge()
             G0,W0=Factory.Build()
             # print W0.Data[:,0,:,0,1]
             log.info("calculating SigmaDeltaT..")
diff --git a/dyson/weight.py b/dyson/weight.py
index 474fbcb..0b973a4 100644
--- a/dyson/weight.py
+++ b/dyson/weight.py
@@ -167,6 +167,7 @@ class Weight():
         Assert(TimeDomain in ['T', 'W'], "TimeDomain is either T or W")
         self.SpaceDomain=SpaceDomain
         self.TimeDomain=TimeDomain
+        self.__BackUp=None
 
     def Copy(self):
         """return a deep copy of Weight instance"""
@@ -180,29 +181,25 @@ class Weight():
             self.AccuData=np.zeros(self.Shape,dtype=complex)
         if not hasattr(self, "Norm"):
             self.Norm=0.0
+        #AccuData is changed in place, so it has to be copied
+        self.__BackUp=(self.Data, self.AccuData.copy(), self.Norm, self.SpaceDomain, self.TimeDomain)
         if ratio is not None:
             self.AccuData+=ratio*newWeight.Data
             self.Norm+=ratio
-        self.BackUpRatio=ratio
-        self.BackUpWeight=newWeight
         if self.Norm>1.0e-3:
             self.Data = self.AccuData/self.Norm
         else:
             self.Data=newWeight.Data
     def RollBack(self):
-        if not hasattr(self, "BackUpRatio"):
+        """undo the last calling of Merge, unless it has been undone or kept already"""
+        if self.__BackUp is None:
             return
-        if self.BackUpRatio is None:
-            #None means no update in the last calling of Merge
-            return 
-        self.BackUpWeight.FFT(self.SpaceDomain, self.TimeDomain)
-        self.Norm-=self.BackUpRatio
-        self.AccuData-=self.BackUpRatio*self.BackUpWeight.Data
-        if self.Norm>1.0e-3:
-            self.Data = self.AccuData/self.Norm
-        else:
-            self.Data=self.BackUpWeight.Data
-    
+        self.Data, self.AccuData, self.Norm, self.SpaceDomain, self.TimeDomain=self.__BackUp
+        self.__BackUp=None
+    def KeepMerge(self):
+        """the last calling of Merge can not be undone any more"""
+        self.__BackUp=None
+
     def FFT(self, *SpaceOrTime):
         if "R" in SpaceOrTime and self.SpaceDomain is "K":
             self.__fftSpace(-1)
-- 
2.43.0


From 224f88f8f80a94c2d4d0892106b1268f2a4a7115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:59 +0000
Subject: [PATCH 32/49] fix: the message was broadcast although the weights
 could not be saved

---
 dyson/main.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dyson/main.py b/dyson/main.py
index d7e1c99..60ce3fb 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -98,6 +98,7 @@ def Measure(para, Observable,Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, D
 
     Observable.Measure(Chi, BKChi, Determ, G, Factory.NearestNeighbor)
 
+    IsSaved=False
     with DelayedInterrupt():
         try:
             log.info("Save weights into {0} File".format(WeightFile))
@@ -105,6 +106,7 @@ def Measure(para, Observable,Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, D
             IO.SaveBigDict(WeightFile, data)
 
             parameter.Save(ParaFile, para)  #Save Parameters
+            IsSaved=True
             Observable.Save(OutputFile)
 
             #plot what you are interested in
@@ -120,6 +122,7 @@ def Measure(para, Observable,Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, D
             plot.PlotBand(G0, Lat)
         except:
             log.warning(blue("Output fails due to\n {0}".format(traceback.format_exc())))
+    return IsSaved
 
 def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
     ParaDyson=para["Dyson"]
@@ -324,15 +327,17 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
 	    log.info("everything is going well!")
             Gold, Wold = G, W
             if para["Gamma3"]:
-                Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor, GGGammaG, WWGammaW)
+                IsSaved=Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor, GGGammaG, WWGammaW)
             else:
-                Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor)
+                IsSaved=Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor)
             IsSuccessed=Factory.DecreaseField(ParaDyson["Annealing"])
             # Factor=2.0 if IsSuccessed else 1.0
             # Factor=2.0
             Factor = 1.0 + 3.0/(1.0*para["Version"]+1.0)
-            parameter.BroadcastMessage(MessageFile, 
-                    {"Version": para["Version"], "Beta": Map.Beta, "SqueezeFactor": Factor})
+            if IsSaved:
+                #workers must not be told about weights which are not there
+                parameter.BroadcastMessage(MessageFile, 
+                        {"Version": para["Version"], "Beta": Map.Beta, "SqueezeFactor": Factor})
             log.info("Version {0} is done!".format(para["Version"]))
         finally:
             log.info(green("Memory Usage before collecting: {0} MB".format(memory_usage())))
-- 
2.43.0


From cce429f8ee870903df8b7e35c1483bccbd509587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:49 +0000
Subject: [PATCH 33/49] fix: collecting statistics only failed, and would have
 saved a total without its norm

---
 dyson/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyson/main.py b/dyson/main.py
index 60ce3fb..256a4cf 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -392,13 +392,14 @@ if __name__=="__main__":
 
     if args.collect:
         log.info("Collect statistics only...")
-        SigmaMC, PolarMC=collect.CollectStatis(Map)
-        collect.UpdateWeight((SigmaMC, PolarMC), para["Dyson"]["ErrorThreshold"], para["Dyson"]["OrderAccepted"])
+        SigmaMC, PolarMC, _, _=collect.CollectStatis(Map)
         data ={}
         data["Sigma"] = {"Histogram": SigmaMC.ToDict()}
         data["Polar"] = {"Histogram": PolarMC.ToDict()}
         with DelayedInterrupt():
             IO.SaveBigDict(StatisFile, data)
+        #UpdateWeight destroys the accumulated data, so that it comes last
+        collect.UpdateWeight((SigmaMC, PolarMC), para["Dyson"]["ErrorThreshold"], para["Dyson"]["OrderAccepted"])
         sys.exit(0)
     else:
         Dyson(job["DysonOnly"],  IsNewCalculation, job["SumRule"], para, Map, Lat)
-- 
2.43.0


From 71e3d3bf5ac21652cd2e1b6d36fb6b4686214a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:31 +0000
Subject: [PATCH 34/49] fix: a failed version left its three-point vertex
 behind

---
 dyson/main.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dyson/main.py b/dyson/main.py
index 256a4cf..7c7600e 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -168,6 +168,7 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
     Sigma=weight.Weight("SmoothT", Map, "TwoSpins", "AntiSymmetric","R","T")
     Polar=weight.Weight("SmoothT", Map, "FourSpins", "Symmetric","R","T")
 
+    GGGammaG=None
     if IsNewCalculation:
         #not load WeightFile
         log.info("Start from bare G, W")
@@ -191,7 +192,7 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
             else:
                 GGGammaG=gamma3.SimpleGG(G, Map)
 
-    Gold, Wold = G, W
+    Gold, Wold, GGGammaGold = G, W, GGGammaG
 
     #while para["Version"]==0:
     while True:
@@ -302,7 +303,7 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
             #failure due to denorminator touch zero
             log.info(green("Version {0} fails due to:\n{1}".format(para["Version"],err)))
             Factory.RevertField(ParaDyson["Annealing"])
-            G, W = Gold, Wold
+            G, W, GGGammaG = Gold, Wold, GGGammaGold
             SigmaDeltaT.RollBack()
             Sigma.RollBack()
             Polar.RollBack()
@@ -310,7 +311,7 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
         except collect.CollectStatisFailure as err:
             #failure due to statis files collection
             log.info(green("Version {0} fails due to:\n{1}".format(para["Version"],err)))
-            G, W = Gold, Wold
+            G, W, GGGammaG = Gold, Wold, GGGammaGold
             SigmaDeltaT.RollBack()
             Sigma.RollBack()
             Polar.RollBack()
@@ -325,7 +326,7 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
         else:
             #everything works prefectly 
 	    log.info("everything is going well!")
-            Gold, Wold = G, W
+            Gold, Wold, GGGammaGold = G, W, GGGammaG
             if para["Gamma3"]:
                 IsSaved=Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor, GGGammaG, WWGammaW)
             else:
-- 
2.43.0


From 30eb1c16e612ba70d2ffee5a0adafd5dca46e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:31 +0000
Subject: [PATCH 35/49] fix: three-point statistics without samples killed the
 coordinator

---
 dyson/collect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyson/collect.py b/dyson/collect.py
index 793fe6b..f98113c 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -231,6 +231,8 @@ def CollectStatis(_map, runGamma3=False):
     if float(Success)/Total<AcceptRatio:
         raise CollectStatisFailure("More than {0}% statistics files fail to read!".format(100.0*AcceptRatio)) 
     if runGamma3:
+        if abs(GammaGNormAccu)<1e-3 or abs(GammaWNormAccu)<1e-3:
+            raise CollectStatisFailure("NormAccu of GammaG or GammaW is 0.0!")
         GammaGAccu*=1.0/GammaGNormAccu*GammaGNorm
         GammaWAccu*=1.0/GammaWNormAccu*GammaWNorm
         GammaWAccu=np.array(GammaWAccu, dtype=np.complex64)
-- 
2.43.0


From adce3e17680536cb94e3f9db3f430201250433aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:23 +0000
Subject: [PATCH 36/49] fix: the mirrored half of a three-point function was
 kept at the wrong sites

---
 src/module/weight/gamma3.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index 0f4de4b..ef514ee 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -336,6 +336,9 @@ Complex GammaWClass::Weight(const Site &Wr_in, const Site &Wr_out, const Site &U
 
     auto tIndex=t1Index*_MaxTauBinTiny+t2Index;
 
+    //a flagged time pair stands for the mirrored one, where the two ends are exchanged
+    if(_TauFlag[tIndex]!=0)
+        coordiIndex=coord_r2*_Vol+coord_r1;
     auto Index=_RSqueeze[coordiIndex]*_TauSize+_TauSqueeze[tIndex];
 
     auto SpinIndex=_SpinIndex(Wspin_out, Wspin_in);
@@ -419,6 +422,9 @@ void GammaWClass::Measure(const Site &Wr_in, const Site &Wr_out, const Site &Ur,
 
     auto tauIndex=t1Index*_MaxTauBinTiny+t2Index;
 
+    //a flagged time pair stands for the mirrored one, where the two ends are exchanged
+    if(_TauFlag[tauIndex]!=0)
+        coordiIndex=coord_r2*_Vol+coord_r1;
     auto Index=_RSqueeze[coordiIndex]*_TauSize+_TauSqueeze[tauIndex];
     auto SpinIndex=_SpinIndex(Wspin_out, Wspin_in);
 
-- 
2.43.0


From 0bc821a63cd6b42017efd9753a4d42d72e9179c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:39 +0000
Subject: [PATCH 37/49] fix: next nearest neighbors of a triangular lattice
 with a side of two

(2,Ly-1) and (Lx-1,2) lie outside of a lattice with Lx=2 or Ly=2. The index
error was only logged, and the bare interaction went on with the neighbors
before it only.
---
 dyson/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyson/model.py b/dyson/model.py
index 7d5dee6..ccc9d5f 100644
--- a/dyson/model.py
+++ b/dyson/model.py
@@ -428,7 +428,7 @@ class BareFactory:
             sub=0
 
             self.NearestNeighbor[0][0]=[(0,1),(1,0),(1,Ly-1),(0,Ly-1), (Lx-1,0), (Lx-1, 1)]
-            self.NextNearestNeighbor[0][0]=[(1,1),(2,Ly-1),(1,Ly-2),(Lx-1,Ly-1),(Lx-2,1), (Lx-1,2)]
+            self.NextNearestNeighbor[0][0]=[(1,1),(2%Lx,Ly-1),(1,Ly-2),(Lx-1,Ly-1),(Lx-2,1), (Lx-1,2%Ly)]
 
             #J1 interaction on nearest neighbors
             for i in self.NearestNeighbor[0][0]:
-- 
2.43.0


From a5fcbfaf48de7076fe1dd96337fcb3f25c9c6bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:39 +0000
Subject: [PATCH 38/49] fix: J2 on the cubic lattice

The list of next nearest neighbors was empty, so that the second coupling of
a J1J2 model was dropped without a word.
---
 dyson/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyson/model.py b/dyson/model.py
index ccc9d5f..94d6dad 100644
--- a/dyson/model.py
+++ b/dyson/model.py
@@ -534,7 +534,9 @@ class BareFactory:
             Lx,Ly,Lz=self.__Map.L
             sub=0
             self.NearestNeighbor[0][0]=[(1,0,0),(0,1,0),(0,0,1),(Lx-1,0,0),(0,Ly-1,0),(0,0,Lz-1)]
-            self.NextNearestNeighbor[0][0]=[]
+            self.NextNearestNeighbor[0][0]=[(1,1,0),(1,Ly-1,0),(Lx-1,1,0),(Lx-1,Ly-1,0),
+                    (1,0,1),(1,0,Lz-1),(Lx-1,0,1),(Lx-1,0,Lz-1),
+                    (0,1,1),(0,1,Lz-1),(0,Ly-1,1),(0,Ly-1,Lz-1)]
             #J1 interaction on nearest neighbors
             for i in self.NearestNeighbor[0][0]:
                 self.BareW.Data[:,sub,:,sub,self.__Map.CoordiIndex(i)]+= J1*SS;
-- 
2.43.0


From a2970d159fdb5aff7ac91d041e29bacf626b6dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:39 +0000
Subject: [PATCH 39/49] fix: J2 on the triangular lattice with three
 sublattices

The second coupling of a J1J2 model was dropped without a word.
---
 dyson/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dyson/model.py b/dyson/model.py
index 94d6dad..1b31be3 100644
--- a/dyson/model.py
+++ b/dyson/model.py
@@ -450,10 +450,15 @@ class BareFactory:
             self.NearestNeighbor[C][A]=[(0, 0), (1, 0), (1, Ly-1)]
             self.NearestNeighbor[C][B]=[(0, 0), (1, Ly-1), (0, Ly-1)]
 
+            for i in range(3):
+                self.NextNearestNeighbor[i][i]=[(1, 0), (Lx-1, 0), (0, 1), (0, Ly-1), (1, Ly-1), (Lx-1, 1)]
+
             for i in range(3):
                 for j in range(3):
                     for e in self.NearestNeighbor[i][j]:
                         self.BareW.Data[:,i,:,j,self.__Map.CoordiIndex(e)]+= J1*SS;
+                    for e in self.NextNearestNeighbor[i][j]:
+                        self.BareW.Data[:,i,:,j,self.__Map.CoordiIndex(e)]+= J2*SS;
 
         elif LatName=="Honeycomb":
             #NSublat: 2
-- 
2.43.0


From 826cdf90e1168d7e0b7b8ab305062c45dcf972aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:29 +0000
Subject: [PATCH 40/49] fix: reciprocal vectors of the checkerboard, kagome and
 pyrochlore lattices in the order of the lattice vectors

a_i . b_j = 2 pi delta_ij did not hold, so integer momenta of a lattice
with sides of different length were not momenta of the lattice.
---
 dyson/lattice.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dyson/lattice.py b/dyson/lattice.py
index ae72faf..3be471d 100644
--- a/dyson/lattice.py
+++ b/dyson/lattice.py
@@ -37,8 +37,8 @@ class Lattice:
                               [1.0,-1.0]])
         self.SubLatVec=np.array([[0.0,0.0],
                                  [1.0,0.0]])
-        self.ReciprocalLatVec =np.array([[PI, -PI],
-                                         [PI,  PI]])
+        self.ReciprocalLatVec =np.array([[PI,  PI],
+                                         [PI, -PI]])
         self.Path=[(0,0),(PI,0),(PI,PI),(0,0)]
         self.PathName=["$\Gamma$\n$(0,0)$", "$X$\n$(\pi,0)$", "$M$\n$(\pi,\pi)$","$\Gamma$\n$(0,0)$"]
         self.IndependtBZCenter=[(0,0)]
@@ -133,8 +133,8 @@ class Lattice:
         self.SubLatVec = np.array([[0.5, 0.0],
                                   [1.0/4.0, root3/4],
                                   [3.0/4.0, root3/4]])
-        self.ReciprocalLatVec=np.array([[0.0, PI2*2.0/root3],
-                                        [PI2, -PI2/root3]])
+        self.ReciprocalLatVec=np.array([[PI2, -PI2/root3],
+                                        [0.0, PI2*2.0/root3]])
         #TODO: self.Path is not correct yet
         self.Path=[(0,0),(PI2/root3,0)]
         self.PathName=["\Gamma", "M"]
@@ -188,9 +188,9 @@ class Lattice:
                                  [0.0,0.25,0.25],
                                  [0.25,0.0,0.25],
                                  [0.25,0.25,0.0]])
-        self.ReciprocalLatVec=np.array([[2*PI, -2*PI, 2*PI],
-                                        [2*PI, 2*PI, -2*PI],
-                                        [-2*PI, 2*PI, 2*PI]])
+        self.ReciprocalLatVec=np.array([[-2*PI, 2*PI, 2*PI],
+                                        [2*PI, -2*PI, 2*PI],
+                                        [2*PI, 2*PI, -2*PI]])
         P={"G": (0,0,0), "X":(0,2*PI,0),  "W":(PI,2*PI,0), \
            "K":(1.5*PI,1.5*PI,0),"L": (PI,PI,PI), "U": (PI/2,2*PI,PI/2)}
         L={"G":"$\Gamma$\n$(0,0,0)$", "X":"$X$\n$(0,2\pi,0)$", "W": "$W$\n$(\pi,2\pi,0)$", \
-- 
2.43.0


From 07da07c8d8119156b09a9e06edf44d953143208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:29 +0000
Subject: [PATCH 41/49] fix: static staggered susceptibility from zero
 frequency, not from the first time bin

---
 dyson/measure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyson/measure.py b/dyson/measure.py
index 929bd8d..a5b8b9c 100644
--- a/dyson/measure.py
+++ b/dyson/measure.py
@@ -50,8 +50,8 @@ class Observable:
 
 
         if self.__Lat.Name in ["Chain", "Assymetric_Triangular", "Square", "Cubic", "Checkerboard", "3DCheckerboard", "ValenceBond"]:
-            # Chi.FFT("R", "T")
-            # print Chi.Data[0,0,0,0,:,0]
+            Chi.FFT("R", "W")
+            BKChi.FFT("R", "W")
             StagK=(PI,)*self.__Map.Dim
             _, ChiK=self.__Lat.FourierTransformation(Chi.Data[0,:,0,:,:,0]*Factor, [StagK,],"Real")
             _, BKChiK=self.__Lat.FourierTransformation(BKChi.Data[0,:,0,:,:,0]*Factor, [StagK,],"Real")
-- 
2.43.0


From d8419bf93f0cefc4fa4a5d6ca0b4c234d5814654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 42/49] fix: susceptibility is -P(1-JP)^-1, also when the
 polarization and the interaction do not commute

---
 dyson/calculator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dyson/calculator.py b/dyson/calculator.py
index a8a9c09..5ef2d20 100644
--- a/dyson/calculator.py
+++ b/dyson/calculator.py
@@ -130,7 +130,11 @@ def W_Dyson(W0, Polar, map, Lat):
     lu_piv,Determ=weight.LUFactor(Denorm)
     Check_Denorminator(Denorm, Determ,map)
     W.LUSolve(lu_piv, JPJ)
-    ChiTensor.LUSolve(lu_piv, -Polar.Data)
+    #chi=-P*(1-JP)^-1, P and J may not commute
+    Unit=np.zeros(Polar.Shape, dtype=complex)
+    Unit+=np.eye(W.NSpin*W.NSublat).reshape([W.NSpin,W.NSublat,W.NSpin,W.NSublat])[...,np.newaxis,np.newaxis]
+    ChiTensor.LUSolve(lu_piv, Unit)
+    ChiTensor.Data=-np.einsum("ijklvt,klmnvt->ijmnvt", Polar.Data, ChiTensor.Data)
     return W, ChiTensor, Determ
 
 def G_Dyson(G0, SigmaDeltaT, Sigma, map):
-- 
2.43.0


From 7baf96c03696ecc1814d21a8dfe0de0e7f4dbf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 43/49] fix: compare the time bins of the three-point symmetry
 mapping by value, not by identity

---
 dyson/gamma3_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyson/gamma3_calc.py b/dyson/gamma3_calc.py
index 4512c93..9064e3a 100644
--- a/dyson/gamma3_calc.py
+++ b/dyson/gamma3_calc.py
@@ -652,11 +652,11 @@ def SymmetryMapping(_map):
         for t2 in range(t1, TauBin):
             TauSqueeze[t1,t2]=Index
             TauSymFactor[t1,t2]=2
-            if t1 is not t2:
+            if t1 != t2:
                 TauSqueeze[t2,t1]=Index
                 TauSymFactor[t2,t1]=2
                 TauFlag[t2,t1]=1
-            if t1 is t2:
+            if t1 == t2:
                 TauSymFactor[t1,t1]=1
             TauRestore.append((t1, t2))
             Index+=1
-- 
2.43.0


From ffcc1a0c3c5d96fa106828ab9130db6510381452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:10 +0000
Subject: [PATCH 44/49] fix: a total of all statistics is not taken for a
 worker's (the job manager could not start)

---
 job_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/job_class.py b/job_class.py
index 9a7520c..8521a9c 100644
--- a/job_class.py
+++ b/job_class.py
@@ -55,7 +55,7 @@ class JobMonteCarlo(Job):
         self.job["Type"] = "MC"
         self.control["__KeepCPUBusy"]=True
         #search folder for old jobs, the new pid=largest old pid+1
-        PIDList, NextPID=get_current_PID("statis")
+        PIDList, NextPID=get_current_PID("_statis")
         if len(PIDList) is not 0:
             self.job["DoesLoad"]=True
             self.pid=PIDList[:self.control["__Duplicate"]]
-- 
2.43.0


From 35a27e211eb88d16795f7d9037ca97b26640ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:10 +0000
Subject: [PATCH 45/49] fix: the job manager starts no more jobs once it was
 asked to stop, and stops those just being started

---
 job_manager.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/job_manager.py b/job_manager.py
index adfcebd..9aa56cb 100755
--- a/job_manager.py
+++ b/job_manager.py
@@ -5,11 +5,13 @@ import os, sys, copy, signal
 import time
 import subprocess
 import logging
+import traceback
 import IO
 import inlist
 
 PROCLIST = []
 PROCLIST_BACK = []
+STOPPED = False #set once the daemon has been asked to stop
 workdir=os.path.abspath(".")
 logging.basicConfig(filename=workdir+"/project.log",
         level=logging.INFO,
@@ -68,7 +70,7 @@ def check_status():
     PROC=(PROCLIST, PROCLIST_BACK)
     #print PROC
     for plist in PROC:
-        for elemp in plist:
+        for elemp in plist[:]:
             if elemp[0].poll() is not None:
                 plist.remove(elemp)
                 logging.info(elemp[1].get_job_name()+" is ended!")
@@ -117,6 +119,9 @@ def submit_job(job_atom):
                 PROCLIST.append((proc, job_atom))
             else:
                 PROCLIST_BACK.append((proc, job_atom))
+            if STOPPED:
+                #the request came while the job was being started
+                terminate((proc, job_atom))
 
             logging.info(job_atom.get_job_name()+" is started...")
             logging.info("input:\n"+str(job_atom.para))
@@ -131,18 +136,24 @@ def Exit():
     print("Jobs manage daemon is ended")
     sys.exit(0)
 
+def terminate(elem):
+    """stop a job, which may have ended already"""
+    if elem[0].poll() is None:
+        elem[0].terminate()
+        elem[0].wait()
+    logging.info(elem[1].get_job_name()+" is ended!")
+    print elem[1].get_job_name()+" is ended!"
+
 def StopTheWorld(signum, frame):
-    """Stop the sub-process *child* if *signum* is SIGTERM. Then terminate."""
-    check_status()
+    """Stop all sub-processes, and don't start any more. Then terminate."""
+    global STOPPED
+    STOPPED=True
     ##terminate all background process here
-    try:
-        for elem in PROCLIST_BACK+PROCLIST:
-            elem[0].terminate()
-            elem[0].wait()
-            logging.info(elem[1].get_job_name()+" is ended!")
-            print elem[1].get_job_name()+" is ended!"
-    except:
-        traceback.print_exc()
+    for elem in PROCLIST_BACK+PROCLIST:
+        try:
+            terminate(elem)
+        except:
+            traceback.print_exc()
 
 if __name__ == "__main__":
     logging.info("Jobs manage daemon is started...")
@@ -153,11 +164,15 @@ if __name__ == "__main__":
         signal.signal(signal.SIGINT, StopTheWorld)
         signal.signal(signal.SIGTERM, StopTheWorld)
         for ATOM in JOBQUEUE_BACK:
+            if STOPPED:
+                break
             submit_job(ATOM)
         for ATOM in JOBQUEUE:
             while ATOM.is_cluster is False and len(PROCLIST)>=inlist.CPU:
                 check_status()
                 time.sleep(inlist.SLEEP)
+            if STOPPED:
+                break
             submit_job(ATOM)
         while len(PROCLIST+PROCLIST_BACK) != 0:
             check_status()
-- 
2.43.0


From 2f288b96aebb02949b38ffa28ccac2766be7b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:46 +0000
Subject: [PATCH 46/49] fix: compare weights by relative error in the diagram
 self-check

An absolute tolerance of 1e-9 accepted any stored weight of a diagram whose
weight is small, and refused every diagram with a line weight below it.
---
 src/module/diagram/diagram_check.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/module/diagram/diagram_check.cpp b/src/module/diagram/diagram_check.cpp
index cfbe10a..12dedb0 100644
--- a/src/module/diagram/diagram_check.cpp
+++ b/src/module/diagram/diagram_check.cpp
@@ -14,6 +14,12 @@
 using namespace std;
 using namespace diag;
 
+// weights range over many orders of magnitude: compare them by their relative error
+static bool _SameWeight(const Complex& w1, const Complex& w2)
+{
+    return mod(w1 - w2) <= 1.0e-6 * mod(w2);
+}
+
 bool Diagram::CheckDiagram()
 {
     if (!DEBUGMODE)
@@ -161,9 +167,9 @@ bool Diagram::_CheckWeight()
             vout = G(i)->NeighVer(OUT);
             gWeight = GWeight->Weight(vin->R, vout->R, vin->Tau, vout->Tau,
                                       vin->Spin(OUT), vout->Spin(IN), G(i)->IsMeasure, G(i)->IsGGGammaG, &UExt);
-            if (!Equal(G(i)->Weight, gWeight))
+            if (!_SameWeight(G(i)->Weight, gWeight))
                 return false;
-            if (Equal(G(i)->Weight, Complex(0.0, 0.0)))
+            if (mod(G(i)->Weight) == 0.0)
                 return false;
         }
         for (int i = 0; i < W.HowMany(); i++) {
@@ -173,12 +179,12 @@ bool Diagram::_CheckWeight()
             vout = W(i)->NeighVer(OUT);
             wWeight = WWeight->Weight(vin->R, vout->R, vin->Tau, vout->Tau, vin->Spin(),
                                       vout->Spin(), W(i)->IsWorm, W(i)->IsMeasure, W(i)->IsDelta, W(i)->IsWWGammaW, &UExt);
-            if (!Equal(W(i)->Weight, wWeight))
+            if (!_SameWeight(W(i)->Weight, wWeight))
                 return false;
-            if (Equal(W(i)->Weight, Complex(0.0, 0.0)))
+            if (mod(W(i)->Weight) == 0.0)
                 return false;
         }
         DiagWeight *= SignFermiLoop * (Order % 2 == 0 ? 1 : -1);
-        return Equal(DiagWeight, Weight);
+        return _SameWeight(Weight, DiagWeight);
     }
 }
-- 
2.43.0


From af8b46b3b1a5461dbadd94f8ad50928cb81759e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:12 +0000
Subject: [PATCH 47/49] fix: start a new diagram on a site that every lattice
 has

The first diagram sat at coordinate [1,0], which a lattice with one cell along
the first side does not have.
---
 src/module/diagram/diagram_IO.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/diagram/diagram_IO.cpp b/src/module/diagram/diagram_IO.cpp
index f0bdbdb..67131d8 100644
--- a/src/module/diagram/diagram_IO.cpp
+++ b/src/module/diagram/diagram_IO.cpp
@@ -171,9 +171,9 @@ void Diagram::BuildNew(Lattice& lat, weight::GClass& g, weight::WClass& w)
     Dictionary Config;
     string coord;
     if (D == 2)
-        coord = "[1,0]";
+        coord = "[0,0]";
     else if (D == 3)
-        coord = "[1,0,0]";
+        coord = "[0,0,0]";
     else
         ABORT("Not implemented!");
     Config.LoadFromString(
-- 
2.43.0


From a025cfbc0d167af145b7fe3025eccf9b16aaffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:07 +0000
Subject: [PATCH 48/49] fix: with the sum rule the zeroth order was added twice
 to the published susceptibility

---
 dyson/main.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dyson/main.py b/dyson/main.py
index 7c7600e..db32899 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -283,8 +283,8 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
             Wtmp, ChiTensor, Determ = calc.W_Dyson(W0, Polar, Map, Lat)
 
             if EnforceSumRule:
-                ChiTensor=calc.Add_ChiTensor_ZerothOrder(ChiTensor, G, Map)
-                Chi = calc.Calculate_Chi(ChiTensor, Map)
+                #a copy, because Measure adds the zeroth order to ChiTensor itself
+                Chi = calc.Calculate_Chi(calc.Add_ChiTensor_ZerothOrder(ChiTensor.Copy(), G, Map), Map)
                 Chi.FFT("R","T")
 
                 while abs(Chi.Data[0,0,0,0,0,0]-0.75)>1.e-3:
@@ -292,8 +292,7 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
                     PolarSumRule = Polar
                     PolarSumRule.Data = PolarSumRule.Data*SumRuleRatio
                     Wtmp, ChiTensor, Determ = calc.W_Dyson(W0, Polar, Map, Lat)
-                    ChiTensor=calc.Add_ChiTensor_ZerothOrder(ChiTensor, G, Map)
-                    Chi = calc.Calculate_Chi(ChiTensor, Map)
+                    Chi = calc.Calculate_Chi(calc.Add_ChiTensor_ZerothOrder(ChiTensor.Copy(), G, Map), Map)
                     Chi.FFT("R","T")
                     print "Chi(r=0,t=0)", Chi.Data[0,0,0,0,0,0]
 
-- 
2.43.0


From c4a94260a28c0484559ef3ae24228c231f80a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:22 +0000
Subject: [PATCH 49/49] fix: an order without samples was accepted on its
 neighbour's error, or ended the coordinator

---
 dyson/collect.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dyson/collect.py b/dyson/collect.py
index f98113c..4b4518e 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -73,6 +73,8 @@ class WeightEstimator():
             # Order Index is equal to real Order-1
             #RelativeError=0.0
             Average=0.0
+            #an order without any samples has no error to be judged by
+            RelativeError=np.inf
             weight=self.OrderWeight[order-1,...]
             for index, _ in np.ndenumerate(weight[...,0]):
                 sp1, sub1, sp2, sub2, vol=index
@@ -97,13 +99,15 @@ class WeightEstimator():
             State="Accepted with relative error {0:.2g}".format(RelativeError, ErrorThreshold)
             if not IsAccpted:
                 State="NOT "+State
-            Info.append([Name, x, Original, Smoothed, error, Position, State])
+            if Average>0.0:
+                Info.append([Name, x, Original, Smoothed, error, Position, State])
             log.info("{0},Threshold {1}".format(State, ErrorThreshold))
             if not IsAccpted:
                 order-=1
                 break
         try:
-            self.__Plot(Info, DoesSaveFigure)
+            if len(Info)>0:
+                self.__Plot(Info, DoesSaveFigure)
         except:
             raise
             log.warning("Failed to plot statistics of {0} at order {1}".format(Name, Position[0]))
-- 
2.43.0

