From 6161ae5d22fa2d493b34e86c0984490fa8cd7079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:18 +0000
Subject: [PATCH 01/49] fix: use sqrt(T) for the tenth Cp coefficient (1/2 is
 an integer division)

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index 25d4bec..c81fc7a 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -88,7 +88,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 ac[6] * (TK * TK * TK * TK) +
                 ac[7] / (TK * TK * TK) +
                 ac[8] / TK +
-                ac[9] * (pow(TK, (1 / 2))) /*+ ac[10]*log(T)*/);
+                ac[9] * (pow(TK, 0.5)) /*+ ac[10]*log(T)*/);
 
     for (unsigned j = 0, ft = 0; j <= k; j++)
     {
-- 
2.43.0


From 71dad63866e353631f015527a67fe45d01f00296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:20 +0000
Subject: [PATCH 02/49] fix: choose a Cp interval for every temperature outside
 of the listed ones (index -1 was used)

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index c81fc7a..cf950a0 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -60,10 +60,11 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
     if (k < 0)
     {
-        if (TK_ <= thermo_parameters.temperature_intervals[0][0])
-            k = 0;
-        if (TK_ > thermo_parameters.temperature_intervals[thermo_parameters.temperature_intervals.size() - 1][1])
-            k = thermo_parameters.temperature_intervals.size() - 1;
+        // outside of all intervals: below the first one, in a gap, or at or above the upper limit of the last one
+        k = 0;
+        for (size_t i = 0; i < thermo_parameters.temperature_intervals.size(); i++)
+            if (thermo_parameters.temperature_intervals[i][0] <= TK_)
+                k = i;
 
         thfun_logger->warn(" {} {}: The given temperature: {} is not inside the specified interval/s for the Cp calculation.\n"
                            "The temperature is not inside the specified interval for the substance {}.",
-- 
2.43.0


From 14574ceea8b9ba5e6ef4d3f720e5016047b1ad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:12 +0000
Subject: [PATCH 03/49] fix: propagate uncertainties to first order in
 products, quotients, powers, roots and logarithms

---
 ThermoFun/Common/ThermoScalar.hpp | 62 ++++++++++---------------------
 1 file changed, 19 insertions(+), 43 deletions(-)

diff --git a/ThermoFun/Common/ThermoScalar.hpp b/ThermoFun/Common/ThermoScalar.hpp
index a6cc69d..156719b 100644
--- a/ThermoFun/Common/ThermoScalar.hpp
+++ b/ThermoFun/Common/ThermoScalar.hpp
@@ -141,14 +141,12 @@ public:
     template<typename VR>
     ThermoScalarBase& operator*=(const ThermoScalarBase<VR>& other)
     {
-        const double tmp_err = err / val;
+        const double e1 = err * other.val;
+        const double e2 = val * other.err;
         ddt  = ddt * other.val + val * other.ddt;
         ddp  = ddp * other.val + val * other.ddp;
         val *= other.val;
-        if (other.val == 0)
-            err = 0.0;
-        else
-            err  = val*sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
+        err  = std::sqrt(e1*e1 + e2*e2);
 
         if (sta.first == Status::notdefined || other.sta.first == Status::notdefined)
             sta = {Status::notdefined, std::string("")};
@@ -164,14 +162,12 @@ public:
     {
         const double tmp1 = 1.0/other.val;
         const double tmp2 = tmp1 * tmp1;
-        const double tmp_err = err / val;
+        const double e1 = err * tmp1;
+        const double e2 = val * other.err * tmp2;
         ddt  = (ddt * other.val - val * other.ddt) * tmp2;
         ddp  = (ddp * other.val - val * other.ddp) * tmp2;
         val *= tmp1;
-        if (other.val == 0)
-            err = 0.0;
-        else
-            err  = val*sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
+        err  = std::sqrt(e1*e1 + e2*e2);
 
         if (sta.first == Status::notdefined || other.sta.first == Status::notdefined)
             sta = {Status::notdefined, std::string("")};
@@ -198,26 +194,17 @@ public:
     /// Assign-multiplication of a ThermoScalar instance
     ThermoScalarBase& operator*=(double other)
     {
-        const double tmp_err = err/val*err/val;
         val *= other;
         ddt *= other;
         ddp *= other;
-        if (val == 0)
-            err = 0.0;
-        else
-            err = val*std::sqrt(tmp_err);
+        err *= std::fabs(other);
         return *this;
     }
 
     /// Assign-division of a ThermoScalar instance
     ThermoScalarBase& operator/=(double other)
     {
-        const double tmp_err = err/val*err/val;
         *this *= 1.0/other;
-        if (val == 0)
-            err = 0.0;
-        else
-            err = val*std::sqrt(tmp_err);
         return *this;
     }
 
@@ -340,22 +327,16 @@ inline auto operator-(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBas
 template<typename VL, typename VR>
 inline auto operator*(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>& r) -> ThermoScalarBase<double>
 {
-    double a = 0.0; double b = 0.0;
-    if (l.val != 0)
-        a = l.err/l.val*l.err/l.val;
-    if (r.val != 0)
-        b = r.err/r.val*r.err/r.val;
-    return {l.val * r.val, l.val * r.ddt + l.ddt * r.val, l.val * r.ddp + l.ddp * r.val, (l.val * r.val)*std::sqrt(a+b), status(l,r)};
+    const double a = l.err * r.val;
+    const double b = l.val * r.err;
+    return {l.val * r.val, l.val * r.ddt + l.ddt * r.val, l.val * r.ddp + l.ddp * r.val, std::sqrt(a*a + b*b), status(l,r)};
 }
 
 /// Left-multiply a ThermoScalar instance by a scalar
 template<typename V>
 inline auto operator*(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBase<double>
 {
-    if (r.val == 0)
-        return {l * r.val, l * r.ddt, l * r.ddp, 0.0, status(r)};
-    auto err = (l * r.val)*std::sqrt(r.err/r.val*r.err/r.val);
-    return {l * r.val, l * r.ddt, l * r.ddp, err, status(r)};
+    return {l * r.val, l * r.ddt, l * r.ddp, l * r.err, status(r)};
 }
 
 /// Right-multiply a ThermoScalar instance by a scalar
@@ -371,12 +352,9 @@ inline auto operator/(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>&
 {
     const double tmp1 = 1.0/r.val;
     const double tmp2 = tmp1 * tmp1;
-    double a = 0.0; double b = 0.0;
-    if (l.val != 0)
-        a = l.err/l.val*l.err/l.val;
-    if (r.val != 0)
-        b = r.err/r.val*r.err/r.val;
-    return {tmp1 * l.val, tmp2 * (l.ddt * r.val - l.val * r.ddt), tmp2 * (l.ddp * r.val - l.val * r.ddp), (tmp1 * l.val)*std::sqrt(a+b), status(l,r)};
+    const double a = l.err * tmp1;
+    const double b = l.val * r.err * tmp2;
+    return {tmp1 * l.val, tmp2 * (l.ddt * r.val - l.val * r.ddt), tmp2 * (l.ddp * r.val - l.val * r.ddp), std::sqrt(a*a + b*b), status(l,r)};
 }
 
 /// Left-divide a ThermoScalar instance by a scalar
@@ -385,9 +363,7 @@ inline auto operator/(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBas
 {
     const double tmp1 = 1.0/r.val;
     const double tmp2 = -l*tmp1*tmp1;
-    if (r.val == 0)
-        return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, 0.0, status(r)};
-    return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, (tmp1 * r.val)*std::sqrt(r.err/r.val*r.err/r.val), status(r)};
+    return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, tmp2 * r.err, status(r)};
 }
 
 /// Right-divide a ThermoScalar instance by a scalar
@@ -405,7 +381,7 @@ inline auto sqrt(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
     const double tmp2 = 0.5 * tmp1/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/ 0.0,0.0,0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, 0.5*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the power of a ThermoScalar instance
@@ -416,7 +392,7 @@ inline auto pow(const ThermoScalarBase<V>& l, double power) -> ThermoScalarBase<
     const double tmp2 = power * tmp1/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/0.0,0.0, 0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, std::fabs(power)*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the power of a ThermoScalar instance
@@ -428,7 +404,7 @@ inline auto pow(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>& power
     const double tmp = power.val/l.val;
     if (l.val == 0)
         return {powl, powl * (logl * power.ddt + /*tmp * l.ddt*/0.0), powl * (logl * power.ddp + /*tmp * l.ddp*/0.0), 0.0, status(l,power)};
-    return {powl, powl * (logl * power.ddt + tmp * l.ddt), powl * (logl * power.ddp + tmp * l.ddp), powl*(l.err/l.val), status(l,power)};
+    return {powl, powl * (logl * power.ddt + tmp * l.ddt), powl * (logl * power.ddp + tmp * l.ddp), powl * std::sqrt(tmp*l.err * tmp*l.err + logl*power.err * logl*power.err), status(l,power)};
 }
 
 /// Return the natural exponential of a ThermoScalar instance
@@ -447,7 +423,7 @@ inline auto log(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
     const double tmp2 = 1.0/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/ 0.0,0.0, 0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, 0.434*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the log10 of a ThermoScalar instance
-- 
2.43.0


From ae23e52e16886c00fcb1319e9ad319af69093065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:28 +0000
Subject: [PATCH 04/49] fix: Berman88 increments are derivatives of one Gibbs
 energy

---
 ThermoFun/Substances/Solids/SolidBerman88.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidBerman88.cpp b/ThermoFun/Substances/Solids/SolidBerman88.cpp
index b45706c..806d46f 100644
--- a/ThermoFun/Substances/Solids/SolidBerman88.cpp
+++ b/ThermoFun/Substances/Solids/SolidBerman88.cpp
@@ -13,7 +13,7 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     auto Vst = subst.thermoReferenceProperties().volume; // j/bar
     auto T   = TK;
     auto P   = Pbar; // in bar
-    auto Ts2   = Tst*Tst;
+    auto Ts2   = (T-Tst)*(T-Tst);
 
     auto vc = subst.thermoParameters().volume_coeff;
 
@@ -38,11 +38,12 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
         tps.entropy      += ( - vc[0]*VP - vc[1]*VP*2.*(T-Tst) - vc[2]*VP*3*Ts2 );
         tps.gibbs_energy += ( vc[0]*(T-Tst)*VP + vc[1]*VP*Ts2 + vc[2]*VP*Ts2*(T-Tst) + vc[3]*VP*(P-Pst) / 2.
                             + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
-        tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) + vc[2]*VP*Ts2*(2.*T + Tst)
+        tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) - vc[2]*VP*Ts2*(2.*T + Tst)
                             + vc[3]*VP*(P-Pst) / 2. + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
-        tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
-        tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
+        tps.heat_capacity_cp += ( - T*VP*(2.*vc[1] + 6.*vc[2]*(T-Tst)) );
     }
+    tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
+    tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
 
     subst.checkCalcMethodBounds("Berman multisite model", TK.val, P.val*1e05, tps);
 
-- 
2.43.0


From 51742f036fb4088babb93bb9821e7e1540fe570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:28 +0000
Subject: [PATCH 05/49] fix: Landau model volume and heat capacity are
 derivatives of its Gibbs energy

---
 ThermoFun/Substances/Solids/SolidHPLandau.cpp | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidHPLandau.cpp b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
index cd6790f..6492209 100644
--- a/ThermoFun/Substances/Solids/SolidHPLandau.cpp
+++ b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
@@ -8,8 +8,8 @@ namespace ThermoFun {
 
 auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    Reaktoro_::ThermoScalar Tcr, Qq, dQq;
-    Tcr = 0.0; Qq = 0.0; dQq = 0.0;
+    Reaktoro_::ThermoScalar Tcr, Qq;
+    Tcr = 0.0; Qq = 0.0;
     std::vector<double> transProp = subst.thermoParameters().m_landau_phase_trans_props;
 //    auto (P/1000) = Reaktoro::Pressure (p.val /1000);  // in kbar
     auto TrK = subst.referenceT();
@@ -43,15 +43,9 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
     auto Q298 = pow( 1.- TrK/Tcr0, 0.25 );
 
     if( TK<Tcr )
-    {
         Qq = pow( 1.- TK/Tcr, 0.25 );
-        dQq = - TK*Vmax/(4.*pow((1.+TK/Tcr),0.75)*pow(Tcr,2.)*Smax);
-    }
     else
-    {
         Qq = 0.;
-        dQq = 0.;
-    }
 
     auto kT = k298 * (1. - (1.5e-4) * ( TK-TrK ));
     auto v_bis = Vmax *pow(Q298,2.) * ( 1.+a0*(TK-TrK) - 20.*a0*( sqrt(TK) - sqrt(TrK) ));
@@ -63,24 +57,30 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
     auto smq = Smax * Tcr0 *( pow(Q298,2.) - pow(Q298,6.)/3. );
 
     // increment thermodynamic properties
-    if (Qq == 0. && dQq == 0.)
+    if (Qq == 0.)
     {
-        double Qq_ = 0.0; double dQq_ = 0.0;
+        double Qq_ = 0.0;
         tps.gibbs_energy += ( smq - TK*Smax*pow(Q298,2.) + ivdp + Smax*((TK-Tcr)*pow(Qq_,2.) + Tcr*pow(Qq_,6.)/3.) );
         tps.entropy      += ( Smax * ( pow(Q298,2.) - pow(Qq_,2.) ) - idvdtdp );
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq_,2.) - pow(Qq_,6.)/3.) + ivdp - TK*idvdtdp );
-        tps.volume        = ( v_bis + 2.*Smax*(TK-Tcr)*Qq_*dQq_ - Smax*pow(Qq_,2.)*Vmax/Smax + Tcr*pow(Qq_,2.)*dQq_
-                              + Vmax/Smax*pow(Qq_,3.)/3. );  // in J/bar
+        tps.volume       += v_bis * pow((1.+4.*(Pbar/1000)/kT),-0.25);  // in J/bar
     } else
     {
         tps.gibbs_energy += ( smq - TK*Smax*pow(Q298,2.) + ivdp + Smax*((TK-Tcr)*pow(Qq,2.) + Tcr*pow(Qq,6.)/3.) );
         tps.entropy      += ( Smax * ( pow(Q298,2.) - pow(Qq,2.) ) - idvdtdp );
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq,2.) - pow(Qq,6.)/3.) + ivdp - TK*idvdtdp );
-        tps.volume        = ( v_bis + 2.*Smax*(TK-Tcr)*Qq*dQq - Smax*pow(Qq,2.)*Vmax/Smax + Tcr*pow(Qq,2.)*dQq
-                              + Vmax/Smax*pow(Qq,3.)/3. );  // in J/bar
+        tps.volume       += v_bis * pow((1.+4.*(Pbar/1000)/kT),-0.25) + Vmax*(pow(Qq,6.)/3. - pow(Qq,2.));  // in J/bar
     }
     if( TK<Tcr )  // Cp is corrected at subcritical T only
         tps.heat_capacity_cp += ( TK*Smax/(2.*sqrt(Tcr)*sqrt(Tcr-TK)) );
+    // pressure effect on Cp, -T*d(idvdtdp)/dT
+    auto v0 = Vmax*pow(Q298,2.);
+    auto X = 1.+4.*(Pbar/1000)/kT;
+    tps.heat_capacity_cp += ( - TK * ( (5./3.)*v0*a0*kT*pow(TK,-1.5) * (pow(X,0.75)-1.)
+                    - (2./3.)*v0*(a0-10.*a0*pow(TK,-0.5))*k298*(1.5e-4) * (pow(X,0.75)-1.)
+                    + 2.*v0*(a0-10.*a0*pow(TK,-0.5))*(Pbar/1000)*(1.5e-4)/(1.-(1.5e-4)*(TK-TrK)) * pow(X,-0.25)
+                    - v_bis*pow((Pbar/1000),2.)*pow((1.5e-4),2.) / ( pow((1.-(1.5e-4)*(TK-TrK)),3.)*k298 )
+                    * pow(X,-1.25) ) * (1000.) );
 
     tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
     tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
-- 
2.43.0


From 2303d6887a13121a04262b97f3b2db94b38f0cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:28 +0000
Subject: [PATCH 06/49] fix: Birch-Murnaghan entropy sign, volume counted once,
 K'' given by the user, coefficient count

---
 ThermoFun/Substances/Solids/SolidBMGottschalk.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
index 09364f5..4e8861a 100644
--- a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
+++ b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
@@ -87,6 +87,7 @@ Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp
     dkdt = BMConst[6];
     kp = BMConst[7];
     kpp = BMConst[8];
+    kppTplus = kppTminus = kpp;
 
     Reaktoro_::Pressure Pplus = P.val + Pincr.val;
     Reaktoro_::Pressure Pminus = P.val - Pincr.val;
@@ -137,7 +138,7 @@ Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp
     // calculate d(vdP)/dT (dS)
     dGTplus = BM_IntVol(P,Pref,vtTplus,vTplus,kt0Tplus,kp,kppTplus);
     dGTminus = BM_IntVol(P,Pref,vtTminus,vTminus,kt0Tminus,kp,kppTminus);
-    dS = (dGTplus-dGTminus)/(2.*Tincr);
+    dS = -(dGTplus-dGTminus)/(2.*Tincr);
 
     // calculate dH
     dH = dG + T*dS;
@@ -158,19 +159,19 @@ auto thermoPropertiesMinBMGottschalk (Reaktoro_::Temperature TK, Reaktoro_::Pres
     auto T_Tst = T -Tst;
 
     auto BMc = subst.thermoParameters().volume_BirchM_coeff;
-    if (BMc.size() < 8)
+    if (BMc.size() < 9)
     {
         errorModelParameters("Birch M.", "BMGottschalk", __LINE__, __FILE__);
     }
 
-    if( (P_Pst != 0.0 || T_Tst != 0.) && BMc.size() >= 8 )
+    if( (P_Pst != 0.0 || T_Tst != 0.) && BMc.size() >= 9 )
     {
        Reaktoro_::ThermoScalar VV0, GG0, HH0, SS0, aC, aE;
 
        BirchMurnaghan( Pst, P, Tst, T, Vst*10., BMc,
                        VV0, aC, aE, GG0, HH0, SS0 );
        // increments to V, G, H, S
-       tps.volume += Vst+VV0/10.;    // fixed by KD on 22.11.04
+       tps.volume += VV0/10.;
            // aW.twp->V += VV0/10.;
        tps.entropy      += SS0;
        tps.gibbs_energy += GG0;
-- 
2.43.0


From 746c56cc99eab4d1dace12a1ba30ef92a5c1ec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:19 +0000
Subject: [PATCH 07/49] fix: solvent properties are computed before the model
 that uses P (argument evaluation order)

---
 ThermoFun/ThermoEngine.cpp | 40 +++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 57ebee0..b7bcb30 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -268,26 +268,36 @@ struct ThermoEngine::Impl
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HKF:
                 {
-                    tps = SoluteHKFgems(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1), electro_properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    // solvent properties first: they set P to the saturation pressure when P = 0
+                    auto ps = properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1);
+                    auto es = electro_properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1);
+                    tps = SoluteHKFgems(pref.workSubstance).thermoProperties(T, P, ps, es);
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HKFR:
                 {
-                    tps = SoluteHKFreaktoro(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1), electro_properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    // solvent properties first: they set P to the saturation pressure when P = 0
+                    auto ps = properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1);
+                    auto es = electro_properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1);
+                    tps = SoluteHKFreaktoro(pref.workSubstance).thermoProperties(T, P, ps, es);
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HP98:
                 {
                     double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
                     double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteHollandPowell98(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1), properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    auto psr = properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1);
+                    auto ps = properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1);
+                    tps = SoluteHollandPowell98(pref.workSubstance).thermoProperties(T, P, psr, ps);
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_AN91:
                 {
                     double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
                     double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAnderson91(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1), properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    auto psr = properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1);
+                    auto ps = properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1);
+                    tps = SoluteAnderson91(pref.workSubstance).thermoProperties(T, P, psr, ps);
                     break;
                 }
                     //                default:
@@ -323,12 +333,13 @@ struct ThermoEngine::Impl
                 {
                     double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
                     double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol),
-                                                                                        WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(T, P),
-                                                                                        properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1),
-                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, preferences.solvent_symbol),
-                                                                                        WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(Tr, Pr),
-                                                                                        properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1));
+                    auto wtp = thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol);
+                    auto ps = properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1);
+                    auto wtpr = thermo_properties_substance_fn(Tr, Pr, Pr, preferences.solvent_symbol);
+                    auto psr = properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1);
+                    WaterIdealGasWoolley woolley(database.getSubstance(preferences.solvent_symbol));
+                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, wtp, woolley.thermoProperties(T, P), ps,
+                                                                                        wtpr, woolley.thermoProperties(Tr, Pr), psr);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_CEH:
@@ -703,17 +714,20 @@ struct ThermoEngine::Impl
             }
             case MethodCorrT_Thrift::type::CTM_DMD: // Dolejs-Maning 2010 density model
             {
-                tpr = ReactionDolejsManning10(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                auto ps = properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1);
+                tpr = ReactionDolejsManning10(pref.workReaction).thermoProperties(T, P, ps);
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_DKR: // Marshall-Franck density model
             {
-                tpr = ReactionFrantzMarshall(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                auto ps = properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1);
+                tpr = ReactionFrantzMarshall(pref.workReaction).thermoProperties(T, P, ps);
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_MRB: // Calling modified Ryzhenko-Bryzgalin model TW KD 08.2007
             {
-                return ReactionRyzhenkoBryzgalin(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1)); // NOT TESTED!!!
+                auto ps = properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1);
+                return ReactionRyzhenkoBryzgalin(pref.workReaction).thermoProperties(T, P, ps); // NOT TESTED!!!
             }
             case MethodCorrT_Thrift::type::CTM_IKZ:
             {
-- 
2.43.0


From 597e18f22858f69d0ed447f9e63b22dbd154e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 08/49] fix: cached results are keyed by the values of the
 arguments and the settings, and give back the saturated pressure

---
 ThermoFun/OptimizationUtils.h | 74 +++++++++++++++++++++--------------
 ThermoFun/ThermoEngine.cpp    | 24 ++++++++----
 2 files changed, 61 insertions(+), 37 deletions(-)

diff --git a/ThermoFun/OptimizationUtils.h b/ThermoFun/OptimizationUtils.h
index b6cea7a..92b85ea 100644
--- a/ThermoFun/OptimizationUtils.h
+++ b/ThermoFun/OptimizationUtils.h
@@ -3,21 +3,39 @@
 #include <map>
 #include <memory>
 #include <tuple>
+#include <type_traits>
 
 #include <list>
 
 namespace ThermoFun {
 
-template <typename Ret, typename... Args>
-auto memoize(std::function<Ret(Args...)> f) -> std::function<Ret(Args...)>
+// Copies a stored value back into an argument passed by (non const) reference.
+template <typename Arg, typename Value>
+auto restoreArgument(Value& arg, const Value& stored) -> void
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
+    if constexpr (std::is_lvalue_reference_v<Arg> && !std::is_const_v<std::remove_reference_t<Arg>>)
+        arg = stored;
+}
+
+// The key is made of the values of the arguments and of what state() returns: everything else the function depends on. The values the arguments have after the call are kept together with the result,
+// so that a cached call leaves the arguments passed by reference (e.g. the saturated pressure when P = 0) as the original call.
+template <typename Ret, typename... Args, typename State>
+auto memoize(std::function<Ret(Args...)> f, State state) -> std::function<Ret(Args...)>
+{
+    using Values = std::tuple<std::decay_t<Args>...>;
+    using Key = std::pair<decltype(state()), Values>;
+    auto cache = std::make_shared<std::map<Key, std::pair<Ret, Values>>>();
     return [=](Args... args) mutable -> Ret
     {
-        std::tuple<Args...> t(args...);
-        if(cache->find(t) == cache->end())
-            (*cache)[t] = f(args...);
-        return (*cache)[t];
+        const Key key(state(), Values(args...));
+        auto it = cache->find(key);
+        if (it == cache->end())
+        {
+            Ret result = f(args...);
+            it = cache->emplace(key, std::make_pair(result, Values(args...))).first;
+        }
+        std::apply([&](const auto&... stored) { (restoreArgument<Args>(args, stored), ...); }, it->second.second);
+        return it->second.first;
     };
 }
 
@@ -49,36 +67,34 @@ auto dereference(const std::shared_ptr<std::function<Ret(Args...)>>& f) -> std::
 
 
 
-template <typename Ret, typename... Args>
-auto memoizeN(std::function<Ret(Args...)> f, size_t max_cache_size) -> std::function<Ret(Args...)>
+template <typename Ret, typename... Args, typename State>
+auto memoizeN(std::function<Ret(Args...)> f, State state, size_t max_cache_size) -> std::function<Ret(Args...)>
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
-    std::list<std::tuple<Args...>> usage_order; // List to track the order of usage for LRU cache management
+    using Values = std::tuple<std::decay_t<Args>...>;
+    using Key = std::pair<decltype(state()), Values>;
+    auto cache = std::make_shared<std::map<Key, std::pair<Ret, Values>>>();
+    auto usage_order = std::make_shared<std::list<Key>>(); // List to track the order in which the results were stored
 
     return [=](Args... args) mutable -> Ret
     {
-        std::tuple<Args...> t(args...); // Create a tuple key from the arguments
-
-        // Check cache size and evict the least recently used item if necessary before adding
-        if (cache->size() >= max_cache_size) {
-            if (!usage_order.empty()) {
-                std::tuple<Args...> lru_t = usage_order.back(); // Get the least recently used key
-                usage_order.pop_back();                           // Remove from usage order
-                cache->erase(lru_t);                             // Remove from cache
+        const Key key(state(), Values(args...)); // Create a tuple key from the values of the arguments
+        auto it = cache->find(key);
+        if (it == cache->end()) // key not found; compute the result
+        {
+            Ret result = f(args...);
+            // Evict the oldest item if necessary before adding
+            if (cache->size() >= max_cache_size && !usage_order->empty())
+            {
+                cache->erase(usage_order->back());
+                usage_order->pop_back();
             }
+            it = cache->emplace(key, std::make_pair(result, Values(args...))).first;
+            usage_order->push_front(key);
         }
-
-        // Check if result is already in cache
-        if (cache->find(t) == cache->end()) { // t not found; compute the result
-            (*cache)[t] = f(args...); // Cache the result
-            usage_order.push_front(t); // Track the usage order
-        }
-        
-        return (*cache)[t]; // Return the cached result
+        std::apply([&](const auto&... stored) { (restoreArgument<Args>(args, stored), ...); }, it->second.second);
+        return it->second.first; // Return the cached result
     };
 }
 
-
-
 } // namespace ThermoFun
 
diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index b7bcb30..c0befa9 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -111,17 +111,23 @@ struct ThermoEngine::Impl
         };
 
         if( preferences.enable_memoize ) {
+            // settings the results depend on, they can change between two calls
+            auto state = [this]() {
+                return std::make_tuple(preferences.solvent_symbol, preferences.fallback_to_reference_properties,
+                                       preferences.apply_pressure_correction_to_gas_props,
+                                       conventions.apparent_properties, conventions.water_properties);
+            };
             if( preferences.max_cache_size==0 ) {
-                thermo_properties_substance_fn = memoize(thermo_properties_substance_fn);
-                electro_properties_solvent_fn = memoize(electro_properties_solvent_fn);
-                properties_solvent_fn = memoize(properties_solvent_fn);
-                thermo_properties_reaction_fn = memoize(thermo_properties_reaction_fn);
+                thermo_properties_substance_fn = memoize(thermo_properties_substance_fn, state);
+                electro_properties_solvent_fn = memoize(electro_properties_solvent_fn, state);
+                properties_solvent_fn = memoize(properties_solvent_fn, state);
+                thermo_properties_reaction_fn = memoize(thermo_properties_reaction_fn, state);
             }
             else {
-                thermo_properties_substance_fn = memoizeN(thermo_properties_substance_fn, preferences.max_cache_size);
-                electro_properties_solvent_fn = memoizeN(electro_properties_solvent_fn,preferences.max_cache_size);
-                properties_solvent_fn = memoizeN(properties_solvent_fn,preferences.max_cache_size);
-                thermo_properties_reaction_fn = memoizeN(thermo_properties_reaction_fn,preferences.max_cache_size);
+                thermo_properties_substance_fn = memoizeN(thermo_properties_substance_fn, state, preferences.max_cache_size);
+                electro_properties_solvent_fn = memoizeN(electro_properties_solvent_fn, state, preferences.max_cache_size);
+                properties_solvent_fn = memoizeN(properties_solvent_fn, state, preferences.max_cache_size);
+                thermo_properties_reaction_fn = memoizeN(thermo_properties_reaction_fn, state, preferences.max_cache_size);
             }
         }
     }
@@ -944,11 +950,13 @@ auto ThermoEngine::database() const -> const Database &
 auto ThermoEngine::appendData(std::string filename) -> void
 {
     pimpl->database.appendData(filename);
+    pimpl->set_fn(); // drop the results cached for the previous data
 }
 
 auto ThermoEngine::appendData(std::vector<std::string> jsonRecords, std::string _label = "unknown label") -> void
 {
     pimpl->database.appendData(jsonRecords, _label);
+    pimpl->set_fn(); // drop the results cached for the previous data
 }
 
 auto ThermoEngine::parseSubstanceFormula(std::string formula) const -> std::map<Element, double>
-- 
2.43.0


From 0b316ce4abd183d81ffa3b81b7c9bf9348dbf1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:30 +0000
Subject: [PATCH 09/49] fix: a copy of the engine uses its own data and
 settings

---
 ThermoFun/ThermoEngine.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index c0befa9..6c28b82 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -88,6 +88,13 @@ struct ThermoEngine::Impl
         set_fn();
     }
 
+    /// the functions refer to this instance, they are set again in the copy
+    Impl(const Impl &other)
+        : database(other.database), preferences(other.preferences), prefs(other.prefs), conventions(other.conventions)
+    {
+        set_fn();
+    }
+
     void set_fn()
     {
         thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol) {
-- 
2.43.0


From cd78cfeb1e64ab3cb4e0778826e24aa286d5eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:52 +0000
Subject: [PATCH 10/49] fix: the pressure correction of gases is switched on
 only while a reaction is calculated

---
 ThermoFun/ThermoEngine.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 6c28b82..72403ad 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -46,6 +46,18 @@ struct WorkPreferences
     bool isReacFromReactants = false;
 };
 
+///
+/// \brief The FlagSwitch switches a flag on as long as it exists, then gives it back its value
+///
+struct FlagSwitch
+{
+    bool &flag;
+    const bool before;
+
+    explicit FlagSwitch(bool &flag) : flag(flag), before(flag) { flag = true; }
+    ~FlagSwitch() { flag = before; }
+};
+
 using ThermoPropertiesSubstanceFunction =
     std::function<ThermoPropertiesSubstance(double, double, double &, std::string)>;
 
@@ -613,7 +625,7 @@ struct ThermoEngine::Impl
         std::map<std::string, double> reactants;
 
         // if reaction involves gases we switch on the P correction to the thermo props
-        preferences.apply_pressure_correction_to_gas_props = true;
+        const FlagSwitch pressure_correction(preferences.apply_pressure_correction_to_gas_props);
 
         if (!reactionSymbol.empty())
         {
@@ -664,8 +676,6 @@ struct ThermoEngine::Impl
             errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
-
         // pressure correction on rdc assuming constant molar volume
         if ((subst.method_P() == MethodCorrP_Thrift::type::CPM_CON) &&
             (reaction.method_P()== MethodCorrP_Thrift::CPM_OFF || !reaction.method_P()))
@@ -820,7 +830,7 @@ struct ThermoEngine::Impl
         tpr.reaction_internal_energy = 0.0;
         tpr.reaction_helmholtz_energy = 0.0;
 
-        preferences.apply_pressure_correction_to_gas_props = true;
+        const FlagSwitch pressure_correction(preferences.apply_pressure_correction_to_gas_props);
 
         std::string message = "Calculated from the reaction components: " + reaction.symbol() + "; ";
 
@@ -858,7 +868,6 @@ struct ThermoEngine::Impl
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.ln_equilibrium_constant.sta.second);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
         return tpr;
     }
 };
-- 
2.43.0


From bc7f43f853be8b0d50b82a0f8c7d8835c5d61429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 11/49] fix: report a dependent substance that lacks its
 reaction or is defined by a reaction without a model

---
 ThermoFun/ThermoEngine.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 72403ad..4cd39d1 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -671,9 +671,12 @@ struct ThermoEngine::Impl
         }
         else
         {
+            // a dependent substance cannot be calculated without its reaction
+            if (subst.thermoCalculationType() == SubstanceThermoCalculationType::type::REACDC)
+                errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
+
             subst.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CON);
             return thermoPropertiesSubstance(T, P, subst);//thermo_properties_substance_fn(T, P, P, subst.symbol()); //
-            errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
         }
 
         // pressure correction on rdc assuming constant molar volume
@@ -841,7 +844,8 @@ struct ThermoEngine::Impl
             auto s = database.getSubstance(substance);
 
             // check if substance is correctly defined
-            if (!s.methodGenEOS() && !s.method_P() && !s.method_T() && s.reactionSymbol() == reaction.symbol())
+            // (its properties cannot be calculated from this reaction and be used to calculate it)
+            if (getThermoPreferencesSubstance(s).isReacDC && s.reactionSymbol() == reaction.symbol())
             {
                 errorMethodNotFound("reaction", reaction.symbol(), __LINE__, __FILE__);
             }
-- 
2.43.0


From a35e3c17e1e76e63cb051545bd044daf3f719601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:11 +0000
Subject: [PATCH 12/49] fix: Cv, U and A of a reaction are sums over all its
 reactants

---
 ThermoFun/ThermoEngine.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 4cd39d1..0705cca 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -859,9 +859,9 @@ struct ThermoEngine::Impl
             tpr.reaction_volume             += tps.volume*coeff;
             tpr.ln_equilibrium_constant     = tpr.reaction_gibbs_energy / -(R_CONSTANT*(T));
             tpr.log_equilibrium_constant    = tpr.ln_equilibrium_constant * ln_to_lg;
-            tpr.reaction_heat_capacity_cv = tps.heat_capacity_cv*coeff;
-            tpr.reaction_internal_energy  = tps.internal_energy*coeff;
-            tpr.reaction_helmholtz_energy = tps.helmholtz_energy*coeff;
+            tpr.reaction_heat_capacity_cv   += tps.heat_capacity_cv*coeff;
+            tpr.reaction_internal_energy    += tps.internal_energy*coeff;
+            tpr.reaction_helmholtz_energy   += tps.helmholtz_energy*coeff;
 
             setMessage(tps.heat_capacity_cp.sta.first, "Cp of component " + substance, message+tps.heat_capacity_cp.sta.second, tpr.reaction_heat_capacity_cp.sta.second);
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.reaction_gibbs_energy.sta.second);
-- 
2.43.0


From c68bf293067da3a26c27548650bdbc781aeb1f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 13/49] fix: the constant volume correction of a reaction
 changes ln K with log K, with the volume used for G

---
 ThermoFun/ThermoEngine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 0705cca..3e63f8f 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -784,8 +784,8 @@ struct ThermoEngine::Impl
                 auto VP = tpr.reaction_volume * (P_ - Pref);
                 tpr.reaction_gibbs_energy += VP;
                 tpr.reaction_enthalpy += VP;
-                auto Vref = pref.workReaction.thermoReferenceProperties().reaction_volume;
-                tpr.log_equilibrium_constant -= Vref * (P_ - Pref) / (R_CONSTANT * T) / lg_to_ln;
+                tpr.ln_equilibrium_constant -= VP / (R_CONSTANT * T);
+                tpr.log_equilibrium_constant -= VP / (R_CONSTANT * T) / lg_to_ln;
                 tpr.reaction_entropy = (tpr.reaction_enthalpy - tpr.reaction_gibbs_energy) / T;
                 tpr.reaction_internal_energy = tpr.reaction_enthalpy - P_ * tpr.reaction_volume;
                 tpr.reaction_helmholtz_energy = tpr.reaction_internal_energy - T * tpr.reaction_entropy;
-- 
2.43.0


From 6271c3e3dc8b01d1f3491f32c3dd92de8bd05690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:06 +0000
Subject: [PATCH 14/49] fix: temperature and pressure derivative members of
 reaction ln K and of the constant volume correction

---
 ThermoFun/ThermoEngine.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 3e63f8f..6f22a26 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -780,15 +780,16 @@ struct ThermoEngine::Impl
             case MethodCorrP_Thrift::type::CPM_CON:
             {
                 auto Pref = pref.workReaction.referenceP() / 1e5;
-                auto P_ = P / 1e5;
+                auto P_ = Reaktoro_::Pressure(P) / 1e5;
+                auto T_ = Reaktoro_::Temperature(T);
                 auto VP = tpr.reaction_volume * (P_ - Pref);
                 tpr.reaction_gibbs_energy += VP;
                 tpr.reaction_enthalpy += VP;
-                tpr.ln_equilibrium_constant -= VP / (R_CONSTANT * T);
-                tpr.log_equilibrium_constant -= VP / (R_CONSTANT * T) / lg_to_ln;
-                tpr.reaction_entropy = (tpr.reaction_enthalpy - tpr.reaction_gibbs_energy) / T;
+                tpr.ln_equilibrium_constant -= VP / (R_CONSTANT * T_);
+                tpr.log_equilibrium_constant -= VP / (R_CONSTANT * T_) / lg_to_ln;
+                tpr.reaction_entropy = (tpr.reaction_enthalpy - tpr.reaction_gibbs_energy) / T_;
                 tpr.reaction_internal_energy = tpr.reaction_enthalpy - P_ * tpr.reaction_volume;
-                tpr.reaction_helmholtz_energy = tpr.reaction_internal_energy - T * tpr.reaction_entropy;
+                tpr.reaction_helmholtz_energy = tpr.reaction_internal_energy - T_ * tpr.reaction_entropy;
 
                 //dU/dT=C (v)
 
@@ -857,7 +858,7 @@ struct ThermoEngine::Impl
             tpr.reaction_enthalpy           += tps.enthalpy*coeff;
             tpr.reaction_entropy            += tps.entropy*coeff;
             tpr.reaction_volume             += tps.volume*coeff;
-            tpr.ln_equilibrium_constant     = tpr.reaction_gibbs_energy / -(R_CONSTANT*(T));
+            tpr.ln_equilibrium_constant     = tpr.reaction_gibbs_energy / -(R_CONSTANT*Reaktoro_::Temperature(T));
             tpr.log_equilibrium_constant    = tpr.ln_equilibrium_constant * ln_to_lg;
             tpr.reaction_heat_capacity_cv   += tps.heat_capacity_cv*coeff;
             tpr.reaction_internal_energy    += tps.internal_energy*coeff;
-- 
2.43.0


From eaf5386ed582e168ba0df93d73fa6d75a1d6b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 15/49] fix: Cp coefficients of one interval are not used in
 another one with fewer coefficients

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index cf950a0..190a931 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -134,6 +134,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
         G -= S * (TK - TrK);
 
+        ac.assign(16, 0.0); // a shorter list of coefficients does not keep those of another interval
         for (unsigned i = 0; i < thermo_parameters.Cp_coeff[j].size(); i++)
         {
             if (i == 16)
-- 
2.43.0


From 05c9c4fe853202c04569fcb73ddc7bbb2e42c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 16/49] fix: do not read past the list of phase transitions

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index 190a931..1467984 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -120,7 +120,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
             RaiseError(exception)
         }
 
-        if (j && thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
+        if (j && ft < thermo_parameters.phase_transition_prop.size() && thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
         {                                                               // Adding parameters of phase transition
             if (thermo_parameters.phase_transition_prop[ft].size() > 1) // dS
                 S += thermo_parameters.phase_transition_prop[ft][1];
-- 
2.43.0


From a037dc247a6a711d44331b6286779d44b4733a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 17/49] fix: internal and Helmholtz energy of HKF species in
 one unit

---
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp     | 10 ++++------
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index 1cc3a3e..447ef0f 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -110,19 +110,17 @@ auto thermoPropertiesAqSoluteHKFgems(Reaktoro_::Temperature TC, Reaktoro_::Press
     // GZterm = W * (-Z - 1.0e0);
 
 
-    auto U = H - Pbar*V;
-
-    auto A = U - TK*S;
-
     // Convert the thermodynamic properties of the gas to the standard units
     V  *= 1e-01; // J/bar
     G  *= cal_to_J;
     H  *= cal_to_J;
     S  *= cal_to_J;
-    U  *= cal_to_J;
-    A  *= cal_to_J;
     Cp *= cal_to_J;
 
+    auto U = H - Pbar*V;
+
+    auto A = U - TK*S;
+
     ThermoPropertiesSubstance tps;
     tps.volume           = V;
     tps.gibbs_energy     = G;
diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 52f9f03..81489e8 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -114,19 +114,17 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     auto Cp = c1 + c2/pow(TK - theta, 2) - (2*TK/pow(TK - theta, 3))*(a3*(Pbar - Pr)
         + a4*log((psi + Pbar)/(psi + Pr))) + w*TK*X + 2*TK*Y*wT + TK*(Z + 1)*wTT;
 
-    auto U = H - Pbar*V;
-
-    auto A = U - TK*S;
-
     // Convert the thermodynamic properties of the gas to the standard units
     V  *= 1e-01/**cal_to_J/bar_to_Pa*/;
     G  *= cal_to_J;
     H  *= cal_to_J;
     S  *= cal_to_J;
-    U  *= cal_to_J;
-    A  *= cal_to_J;
     Cp *= cal_to_J;
 
+    auto U = H - Pbar*V;
+
+    auto A = U - TK*S;
+
     ThermoPropertiesSubstance tps;
     tps.volume           = V;
     tps.gibbs_energy     = G;
-- 
2.43.0


From fdadb6f1cc6784e266fddf99341b8a10ff32e53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:57 +0000
Subject: [PATCH 18/49] fix: derivatives of the g function for water denser
 than 1 g/cm3

---
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index 447ef0f..572535a 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -204,9 +204,11 @@ auto gShok2(Reaktoro_::Temperature TC, Reaktoro_::Pressure Pbar, const Propertie
     dbdT = C[4] + 2.0*C[5]*TC;
     dbdTT = 2.0*C[5];
 
-    dDdT = - D * alpha;
-    dDdP = D * beta;
-    dDdTT = - D * (daldT - pow(alpha,2.));
+    // pw = |1-D|: above 1 g/cm3 it grows with the density
+    const auto sgn = (D.val > 1.0) ? -1.0 : 1.0;
+    dDdT = - sgn * D * alpha;
+    dDdP = sgn * D * beta;
+    dDdTT = - sgn * D * (daldT - pow(alpha,2.));
         // Db = pow((1.0 - D),b);  Fixed by DAK 01.11.00
     Db = pow( pw , b.val );
     dDbdT = -b * pow(pw,(b.val - 1.0)) * dDdT + log(pw) * Db  * dbdT;
@@ -216,7 +218,7 @@ auto gShok2(Reaktoro_::Temperature TC, Reaktoro_::Pressure Pbar, const Propertie
                 + b * dDdT * ( -(b - 1.0) * pow(pw,(b.val - 2.0)) * dDdT
                 + log(pw) * pow(pw,(b.val - 1.0)) * dbdT))
                 + log(pw) * pow(pw,b.val) * dbdTT
-                - pow(pw,b.val) * dbdT * dDdT / (1.0 - D)
+                - pow(pw,b.val) * dbdT * dDdT / pw
                 + log(pw) * dbdT * dDbdT;
 
     g.gP = dgdD * dDdP; // from bar to Pa not necessary!!
-- 
2.43.0


From de17d3ed546b6c7b370c8de1c7be4337a13c82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 19/49] fix: limits of HKF (reaktoro) species are compared in K
 and Pa

---
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 81489e8..ad02047 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -135,7 +135,7 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     tps.heat_capacity_cp = Cp;
     tps.heat_capacity_cv = tps.heat_capacity_cp; // approximate Cp = Cv for an aqueous solution
 
-    subst.checkCalcMethodBounds("HKF model", TK.val-C_to_K, Pbar.val, tps);
+    subst.checkCalcMethodBounds("HKF model", TK.val, Pbar.val*bar_to_Pa, tps);
     if (wp.density >= 1400 || wp.density<=600)
     {
         setMessage(Reaktoro_::Status::calculated, "HKF model: outside of 600-1400 kg/m3 density of pure H2O interval", tps);
-- 
2.43.0


From 194dd06b5ae019705389de05d731089c80de497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 20/49] fix: enthalpy of the Holland-Powell and Anderson
 aqueous species

---
 ThermoFun/Substances/Solute/SoluteAnderson91.cpp      | 2 +-
 ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteAnderson91.cpp b/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
index 928011d..b440469 100644
--- a/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
+++ b/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
@@ -35,7 +35,7 @@ auto thermoPropertiesAqSoluteAN91(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     auto S = S298 - (Cp298*(ALPw298 - ALPw))/(T298*dALPdTw298);
     Reaktoro_::ThermoScalar V(V298); //-(Cp298*ALPw)/(T298*dALPdTw298); // the model does not include a volume term!
     auto Cp = T*(Cp298*dALPdTw)/(T298*dALPdTw298);
-    auto H = G_bb + T*S298;
+    auto H = G_bb + T*S;
 
     tps.gibbs_energy     = G;
     tps.volume           = V;
diff --git a/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp b/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
index 8fc3561..b498d48 100644
--- a/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
@@ -60,7 +60,7 @@ auto thermoPropertiesAqSoluteHP98(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     auto S = S298 - b*(T298 - T) - (Cp298 - T298*b)/(T298*dALPdTw298)*(ALPw298 - log(RHOw/RHOw298)/Tprime - (T/Tprime)*ALPw);
     auto V = V298 + (Cp298 - T298*b)/(T298*dALPdTw298)*( -BETw298 + T/Tprime*BETw );
     auto Cp = T*(b - ((T298*b - Cp298)*(T*dALPdTw))/(T298*dALPdTw298*Tprime));
-    auto H = G_bb + T*S298;
+    auto H = G_bb + T*S;
 
     tps.gibbs_energy     = G;
     tps.volume           = V;
-- 
2.43.0


From bd2e5a89e1866d780b600b3cf482a6312a90f9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:16 +0000
Subject: [PATCH 21/49] fix: entropy and heat capacity of the Holland-Powell
 density model

---
 ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp b/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
index b498d48..d876886 100644
--- a/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
@@ -57,9 +57,11 @@ auto thermoPropertiesAqSoluteHP98(Reaktoro_::Temperature TK, Reaktoro_::Pressure
 
     auto G_bb = H298 - T*S298 + Pbar*V298 + b*( T298*T - pow(T298,2)/2 - pow(T,2)/2 ) + ( Cp298 - T298*b )/( T298*dALPdTw298 )*( ALPw298*(T - T298) - BETw298*Pbar + (T/Tprime)*log(RHOw/RHOw298) );
     auto G = G298 - (T - T298)*S298 + Pbar*V298 + b*( T298*T - pow(T298,2)/2 - pow(T,2)/2 ) + ( Cp298 - T298*b )/( T298*dALPdTw298 )*( ALPw298*(T - T298) - BETw298*Pbar + (T/Tprime)*log(RHOw/RHOw298) );
-    auto S = S298 - b*(T298 - T) - (Cp298 - T298*b)/(T298*dALPdTw298)*(ALPw298 - log(RHOw/RHOw298)/Tprime - (T/Tprime)*ALPw);
+    // temperature derivative of T/Tprime
+    const double dTTp = (T.val <= 500) ? 0.0 : 1.0/Tprime;
+    auto S = S298 - b*(T298 - T) - (Cp298 - T298*b)/(T298*dALPdTw298)*(ALPw298 + dTTp*log(RHOw/RHOw298) - (T/Tprime)*ALPw);
     auto V = V298 + (Cp298 - T298*b)/(T298*dALPdTw298)*( -BETw298 + T/Tprime*BETw );
-    auto Cp = T*(b - ((T298*b - Cp298)*(T*dALPdTw))/(T298*dALPdTw298*Tprime));
+    auto Cp = T*(b - (T298*b - Cp298)*(2.0*dTTp*ALPw + (T/Tprime)*dALPdTw)/(T298*dALPdTw298));
     auto H = G_bb + T*S;
 
     tps.gibbs_energy     = G;
-- 
2.43.0


From 34f6de4fc5322935c4949f51288a89acd34548b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:12 +0000
Subject: [PATCH 22/49] fix: CORK equation of state of H2O above 673 K

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 28 +++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 3ae47b4..bfe330c 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -4458,8 +4458,8 @@ long int TCORKcalc::FugacityH2O( long int j )
     {
         phState = 1;
         a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
-        da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-        d2a = 2.*a5 + 6.*a6*(673.-Tk);
+        da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+        d2a = 2.*a5 + 6.*a6*(Tk-673.);
         VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, fc);
     }
 
@@ -4477,9 +4477,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, fc);
         }
@@ -4495,9 +4495,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g1);
 
@@ -4510,9 +4510,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g2);
 
@@ -4525,9 +4525,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, g3);  // corrected from (phState, Pkb, psat ...)
             fc = g1/g2*g3;  // this formula needs checking
-- 
2.43.0


From 5164b60c315d7143e0d93a74b416c292129aa2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:32 +0000
Subject: [PATCH 23/49] fix: departure enthalpy of the Peng-Robinson gas models
 at the critical temperature and with k1, k2, k3

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 36 ++++++++---------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index bfe330c..b0502ac 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -453,7 +453,7 @@ long int TPRSVcalc::FugacityPT( long int i, double *EoSparam )
 long int TPRSVcalc::AB( double Tcrit, double Pcrit, double omg, double k1, double k2, double k3,
 		double &apure, double &bpure, double &da, double &d2a )
 {
-	double Tred, k0, k, alph, ac, sqa, dsqa, d2sqa;
+	double Tred, k0, k, q, dk, d2k, alph, ac, sqa, dsqa, d2sqa;
 
 	Tred = Tk/Tcrit;
 	k0 = 0.378893 + 1.4897153*omg - 0.17131848*pow(omg,2.) + 0.0196554*pow(omg,3.);
@@ -469,13 +469,13 @@ long int TPRSVcalc::AB( double Tcrit, double Pcrit, double omg, double k1, doubl
 	apure = alph*ac;
 	bpure = (0.077796)*R_CONST*Tcrit/Pcrit;
 	sqa = 1.+k*(1.-sqrt(Tred));
-	// dsqa = (-1.)*k0/(2.*sqrt(Tk*Tcrit)) - 1.7*k1/Tcrit + 2.*k1*Tk/(pow(Tcrit,2.));  // extend dA/dT for k2, k3
-	dsqa = ( k1*(0.7-Tred)/(2.*sqrt(Tred)*Tcrit) - k1*(1.+sqrt(Tred))/Tcrit ) * (1.-sqrt(Tred))
-				- (k0 + k1*(1.+sqrt(Tred))*(0.7-Tred))/(2*sqrt(Tred)*Tcrit);
+	// k = k0 + (k1 + k2*(k3-Tred)*(1-q))*(1+q)*(0.7-Tred), q = sqrt(Tred); (1-q)*(1+q) = 1-Tred
+	q = sqrt(Tred);
+	dk = k1*((0.7-Tred)/(2.*q) - (1.+q)) - k2*((1.-Tred)*(0.7-Tred) + (k3-Tred)*(0.7-Tred) + (k3-Tred)*(1.-Tred));
+	d2k = k1*(-(0.7-Tred)/(4.*q*Tred) - 1./q) + 2.*k2*((0.7-Tred) + (1.-Tred) + (k3-Tred));
+	dsqa = (dk*(1.-q) - k/(2.*q))/Tcrit;
 	da = 2.*ac*(sqa*dsqa);
-	d2sqa = ( - (k1*(0.7-Tred))/(4.*pow(Tred,1.5)*pow(Tcrit,2.)) - k1/(sqrt(Tred)*pow(Tcrit,2.)) ) * (1.-sqrt(Tred))
-				+ ( - k1*(0.7-Tred)/(2.*sqrt(Tred)*Tcrit) - k1*(1.+sqrt(Tred))/Tcrit ) / (sqrt(Tred)*Tcrit)
-				+ ( k0 + k1*(1.+sqrt(Tred))*(0.7-Tred) ) / (4.*pow(Tred,1.5)*pow(Tcrit,2.));
+	d2sqa = (d2k*(1.-q) - dk/q + k/(4.*q*Tred))/pow(Tcrit,2.);
 	d2a = 2.*ac*(dsqa*dsqa + sqa*d2sqa);
 
 	return 0;
@@ -486,7 +486,7 @@ long int TPRSVcalc::AB( double Tcrit, double Pcrit, double omg, double k1, doubl
 /// calculates fugacities and residual functions of pure fluid species
 long int TPRSVcalc::FugacityPure( long int i )
 {
-	double Tcrit, Pcrit, Tred, aprsv, bprsv, alph, da, d2a, k, A, B, a2, a1, a0,
+	double aprsv, bprsv, da, d2a, A, B, a2, a1, a0,
 			z1, z2, z3, vol1, vol2, vol3, lnf1, lnf2, lnf3, z, vol, lnf;
     double /*gig, hig, sig, cpig,*/ fugpure, grs, hrs, srs, cprs,
 			cv, dPdT, dPdV, dVdT;
@@ -498,9 +498,6 @@ long int TPRSVcalc::FugacityPure( long int i )
     //cpig = 0.;
 
 	// retrieve a and b terms of cubic EoS
-	Tcrit = Eosparm[i][0];
-	Pcrit = Eosparm[i][1];
-	Tred = Tk/Tcrit;
 	aprsv = Pureparm[i][0];
 	bprsv = Pureparm[i][1];
 	da = Pureparm[i][2];
@@ -552,12 +549,10 @@ long int TPRSVcalc::FugacityPure( long int i )
 	}
 
 	// calculate thermodynamic properties
-	alph = aprsv/((0.457235)*pow(R_CONST,2.)*pow(Tcrit,2.) / Pcrit);
-	k = (sqrt(alph)-1.)/(1.-sqrt(Tred));
 	grs = R_CONST*Tk*(z-1.-log(z-B)-A/(B*sqrt(8.))
 				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B)));
-	hrs = R_CONST*Tk*(z-1.-log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B))
-				*A/(B*sqrt(8.))*(1+k*sqrt(Tred)/sqrt(alph)));
+	hrs = R_CONST*Tk*(z-1.) - (aprsv-Tk*da)/(bprsv*sqrt(8.))
+				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B));
 	srs = (hrs-grs)/Tk;
 
 	// heat capacity part
@@ -3691,7 +3686,7 @@ long int TPR78calc::AB( double Tcrit, double Pcrit, double omg, double /*N*/,
 /// Calculates fugacities and residual functions of pure fluid species
 long int TPR78calc::FugacityPure( long int i )
 {
-	double Tcrit, Pcrit, Tred, apr, bpr, alph, da, d2a, k, A, B, a2, a1, a0,
+	double apr, bpr, da, d2a, A, B, a2, a1, a0,
 			z1, z2, z3, vol1, vol2, vol3, lnf1, lnf2, lnf3, z, vol, lnf;
     double /*gig, hig, sig, cpig,*/ fugpure, grs, hrs, srs, cprs,
 			cv, dPdT, dPdV, dVdT;
@@ -3703,9 +3698,6 @@ long int TPR78calc::FugacityPure( long int i )
     //cpig = 0.;
 
 	// retrieve a and b terms of cubic EoS
-	Tcrit = Eosparm[i][0];
-	Pcrit = Eosparm[i][1];
-	Tred = Tk/Tcrit;
 	apr = Pureparm[i][0];
 	bpr = Pureparm[i][1];
 	da = Pureparm[i][2];
@@ -3757,12 +3749,10 @@ long int TPR78calc::FugacityPure( long int i )
 	}
 
 	// calculate thermodynamic properties
-	alph = apr/((0.457235529)*pow(R_CONST,2.)*pow(Tcrit,2.) / Pcrit);
-	k = (sqrt(alph)-1.)/(1.-sqrt(Tred));
 	grs = R_CONST*Tk*(z-1.-log(z-B)-A/(B*sqrt(8.))
 				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B)));
-	hrs = R_CONST*Tk*(z-1.-log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B))
-				*A/(B*sqrt(8.))*(1+k*sqrt(Tred)/sqrt(alph)));
+	hrs = R_CONST*Tk*(z-1.) - (apr-Tk*da)/(bpr*sqrt(8.))
+				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B));
 	srs = (hrs-grs)/Tk;
 
 	// heat capacity part
-- 
2.43.0


From 026837a3ec1daf84922d40d0505161f465ac208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:53 +0000
Subject: [PATCH 24/49] fix: Akinfiev-Diamond model: report the temperature and
 pressure limits in the returned properties

---
 ThermoFun/Substances/Solute/SoluteADgems.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solute/SoluteADgems.cpp b/ThermoFun/Substances/Solute/SoluteADgems.cpp
index 80d9e1a..94c931b 100644
--- a/ThermoFun/Substances/Solute/SoluteADgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteADgems.cpp
@@ -99,7 +99,7 @@ auto thermoPropertiesAqSoluteAD(Reaktoro_::Temperature Tk, Reaktoro_::Pressure P
     state.internal_energy  = state.enthalpy - Pbar*state.volume;
     state.helmholtz_energy = state.internal_energy - Tk*state.entropy;
 
-    subst.checkCalcMethodBounds("Akinfiev and Diamond model", Tk.val, Pbar.val*1e5, tps);
+    subst.checkCalcMethodBounds("Akinfiev and Diamond model", Tk.val, Pbar.val*1e5, state);
 
     return state;
 }
-- 
2.43.0


From 2189eea9441a9a139f72b8c0a817479d4cc61ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:53 +0000
Subject: [PATCH 25/49] fix: logK(T) of reactions: derive missing reference
 properties and coefficients at the reference temperature

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index e99d572..b871916 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -74,9 +74,9 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
     const bool has_dGr = dGr.sta.first != Status::notdefined;
 
     if(has_dSr && has_dGr && !has_dHr)
-        dHr = dGr + dSr * TK;
+        dHr = dGr + dSr * Tr;
     if(has_dHr && has_dGr && !has_dSr)
-        dSr = (dHr-dGr)/TK;
+        dSr = (dHr-dGr)/Tr;
 
     if (CE == MethodCorrT_Thrift::type::CTM_EK3)
         CE = determineMethod(dGr,dHr,dSr,dCpr);
@@ -119,11 +119,12 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 CpCoeff.resize(5, 0.0);
 
                 // calculation of logK=f(T) coeffs (only first 5 Cp coefficients, conforming to Haas-Fisher function)
-                A[0] = (( dSr - CpCoeff[0] - CpCoeff[0]*log(TK) - CpCoeff[1]*TK + CpCoeff[2]/(2.0*TK*TK)
-                              + 2.0*CpCoeff[3]/pow(TK,0.5) - CpCoeff[4]*TK*TK/2.0 ) / Rln10).val;
+                // dSr and dHr are the values at the reference temperature
+                A[0] = (( dSr - CpCoeff[0] - CpCoeff[0]*log(Tr) - CpCoeff[1]*Tr + CpCoeff[2]/(2.0*Tr*Tr)
+                              + 2.0*CpCoeff[3]/pow(Tr,0.5) - CpCoeff[4]*Tr*Tr/2.0 ) / Rln10).val;
                 A[1] = CpCoeff[1]/(2.0*Rln10);
-                A[2] = (-( dHr - CpCoeff[0]*TK - CpCoeff[1]*TK*TK/2.0 + CpCoeff[2]/TK
-                           - 2.0*CpCoeff[3]*pow(TK,0.5) - CpCoeff[4]*TK*TK*TK/3.0 ) / Rln10).val;
+                A[2] = (-( dHr - CpCoeff[0]*Tr - CpCoeff[1]*Tr*Tr/2.0 + CpCoeff[2]/Tr
+                           - 2.0*CpCoeff[3]*pow(Tr,0.5) - CpCoeff[4]*Tr*Tr*Tr/3.0 ) / Rln10).val;
                 A[3] = CpCoeff[0]/Rln10;
                 A[4] = CpCoeff[2]/(2.0*Rln10);
                 A[5] = CpCoeff[4]/(6.0*Rln10);
-- 
2.43.0


From d0246d14130db5321b5663ea9024ea7deeafba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:53 +0000
Subject: [PATCH 26/49] fix: Dolejs-Manning reactions are computed with the
 Dolejs-Manning model

---
 ThermoFun/ThermoModelsReaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/ThermoModelsReaction.cpp b/ThermoFun/ThermoModelsReaction.cpp
index ad59aa4..a8715b9 100644
--- a/ThermoFun/ThermoModelsReaction.cpp
+++ b/ThermoFun/ThermoModelsReaction.cpp
@@ -35,7 +35,7 @@ auto ReactionDolejsManning10::thermoProperties(double T, double P, PropertiesSol
     auto t = Reaktoro_::Temperature(T);
     auto p = Reaktoro_::Pressure(P); p /= bar_to_Pa;
 
-    return thermoPropertiesFrantzMarshall(t, p, pimpl->reaction, wp);
+    return thermoPropertiesDolejsManning2010(t, p, pimpl->reaction, wp);
 }
 
 //=======================================================================================================
-- 
2.43.0


From 205f585a4d1e069e8934b327900af6ee4835fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:53 +0000
Subject: [PATCH 27/49] fix: density models of reactions set log K

---
 ThermoFun/Reactions/DolejsManning2010.cpp | 1 +
 ThermoFun/Reactions/FrantzMarshall.cpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ThermoFun/Reactions/DolejsManning2010.cpp b/ThermoFun/Reactions/DolejsManning2010.cpp
index aa20847..00de7ba 100644
--- a/ThermoFun/Reactions/DolejsManning2010.cpp
+++ b/ThermoFun/Reactions/DolejsManning2010.cpp
@@ -39,6 +39,7 @@ auto thermoPropertiesDolejsManning2010(Reaktoro_::Temperature TK, Reaktoro_::Pre
            // Error( GetName(),"DM denisty model: dGr and lnK not consistent!");
 
     tpr.ln_equilibrium_constant    = logK*lg_to_ln;
+    tpr.log_equilibrium_constant   = logK;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
     tpr.reaction_gibbs_energy      = dGr;
diff --git a/ThermoFun/Reactions/FrantzMarshall.cpp b/ThermoFun/Reactions/FrantzMarshall.cpp
index f5bbce7..c73ed1f 100644
--- a/ThermoFun/Reactions/FrantzMarshall.cpp
+++ b/ThermoFun/Reactions/FrantzMarshall.cpp
@@ -47,6 +47,7 @@ auto thermoPropertiesFrantzMarshall(Reaktoro_::Temperature TK, Reaktoro_::Pressu
     auto dAr  = dUr - TK*dSr;
 
     tpr.ln_equilibrium_constant    = logK*lg_to_ln;
+    tpr.log_equilibrium_constant   = logK;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
     tpr.reaction_gibbs_energy      = dGr;
-- 
2.43.0


From 9609be64ae2cebb8ddfde67bd9b121edb06a5074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:54 +0000
Subject: [PATCH 28/49] fix: Ryzhenko-Bryzgalin model: reaction volume in J/bar

---
 ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
index d2e7c9b..60aaa03 100644
--- a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
+++ b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
@@ -10,7 +10,7 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
 //    auto ref_tpr = reaction.thermoReferenceProperties();
     auto RHO = wp.density / 1000; // check units
     auto ALP = wp.Alpha;
-    auto BET = wp.Beta;
+    auto BET = wp.Beta*1e05; // from 1/Pa to 1/bar
     auto dALPdT = wp.dAldT;
     auto RBcoef = reaction.thermoParameters().reaction_RB_coeff;
 
@@ -71,7 +71,7 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     tpr.reaction_entropy           = dSr;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_heat_capacity_cp  = dCPr;
-    tpr.reaction_volume            = dVr*1e5; // to J/bar
+    tpr.reaction_volume            = dVr; // J/bar
     tpr.reaction_helmholtz_energy  = dAr;
     tpr.reaction_internal_energy   = dUr;
 
-- 
2.43.0


From 2e830e02cb51844ae4e4930ce27c2d0f14c623aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:20 +0000
Subject: [PATCH 29/49] fix: Haar-Gallagher-Kell equation of state: third
 derivatives of the Helmholtz energy

---
 .../Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
index 5d6fe4e..8b08abc 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
@@ -266,7 +266,7 @@ namespace ThermoFun {
             const auto x_tt = y_tt * x2 + 2.0 * y_t * x_t * x;
             const auto x_rt = y_rt * x2 + 2.0 * y_r * x_t * x;
             const auto x_rrr = y_rrr * x2 + 4 * y_rr * x_r * x + 2 * y_r * (x_rr * x + x_r * x_r);
-            const auto x_rrt = y_rrt * x2 + 2 * (y_rt * x_r + y_rr * x_t) + 2 * y_r * (x_rt * x + x_r * x_t);
+            const auto x_rrt = y_rrt * x2 + 2 * (y_rt * x_r + y_rr * x_t) * x + 2 * y_r * (x_rt * x + x_r * x_t);
             const auto x_rtt = y_rtt * x2 + 4 * y_rt * x_t * x + 2 * y_r * (x_tt * x + x_t * x_t);
             const auto x_ttt = y_ttt * x2 + 4 * y_tt * x_t * x + 2 * y_t * (x_tt * x + x_t * x_t);
 
@@ -294,7 +294,7 @@ namespace ThermoFun {
             s.helmholtzDDD = A20 * t * (u_rrr + c1 * x_rrr + 2 * c2 * (3 * x_r * x_rr + x * x_rrr) + c3 * y_rrr);
             s.helmholtzTDD = A20 * t * (u_rrt + c1 * x_rrt + 2 * c2 * (x_t * x_rr + 2 * x_r * x_rt + x * x_rrt) + c3 * y_rrt) + s.helmholtzDD / t;
             s.helmholtzTTD = A20 * t * (u_rtt + c1 * x_rtt + 2 * c2 * (x_r * x_tt + 2 * x_t * x_rt + x * x_rtt) + c3 * y_rtt) + 2 * (s.helmholtzTD - s.helmholtzD / t) / t;
-            s.helmholtzTTT = A20 * t * (u_ttt + c1 * x_ttt + 2 * c2 * (3 * x_t * x_tt + x * x_ttt) + c3 * y_ttt) + 3 * (s.helmholtzTT - 2 * s.helmholtzT / t + s.helmholtz / (t * t)) / t;
+            s.helmholtzTTT = A20 * t * (u_ttt + c1 * x_ttt + 2 * c2 * (3 * x_t * x_tt + x * x_ttt) + c3 * y_ttt) + 3 * (s.helmholtzTT - 2 * s.helmholtzT / t + 2 * s.helmholtz / (t * t)) / t;
 
             return s;
         }
@@ -369,7 +369,7 @@ namespace ThermoFun {
                 const auto theta_tt = 2 * beta[i] * (2 * beta[i] * tau * tau - 1) * tau_t * tau_t * theta;
                 const auto theta_rt = -2 * beta[i] * tau * tau_t * theta_r;
                 const auto theta_rrr = psi_rr * theta + 2 * psi_r * theta_r + psi * theta_rr;
-                const auto theta_rrt = psi_r * theta_r + psi * theta_rt;
+                const auto theta_rrt = psi_r * theta_t + psi * theta_rt;
                 const auto theta_rtt = psi * theta_tt;
                 const auto theta_ttt = -2 * beta[i] * (2 * tau_t * tau_t * theta_t + tau * tau_t * theta_tt);
 
-- 
2.43.0


From 8b3ef20e47d62eb81adf307323b7f71c3ac19f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:21 +0000
Subject: [PATCH 30/49] fix: Wagner-Pruss equation of state: third temperature
 derivative of the Helmholtz energy

---
 .../Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
index 52194f1..aa52ba4 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
@@ -370,7 +370,7 @@ auto waterHelmholtzStateWagnerPruss(Reaktoro_::Temperature T, Reaktoro_::ThermoS
 	const auto phiTT  = phi_tt*tT*tT + phi_t*tTT;
 	const auto phiTD  = phi_dt*tT*dD;
 	const auto phiDD  = phi_dd*dD*dD;
-	const auto phiTTT = phi_ttt*tT*tT*tau*T + 3*phi_tt*tT*tTT + phi_t*tTTT;
+	const auto phiTTT = phi_ttt*tT*tT*tT + 3*phi_tt*tT*tTT + phi_t*tTTT;
 	const auto phiTTD = phi_dtt*tT*tT*dD + phi_dt*tTT*dD;
 	const auto phiTDD = phi_ddt*tT*dD*dD;
 	const auto phiDDD = phi_ddd*dD*dD*dD;
-- 
2.43.0


From 37c6ada30c74258ec060378b6ebbed555b2da291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:21 +0000
Subject: [PATCH 31/49] fix: Wagner-Pruss pressure and saturated vapour density

---
 ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
index dc39d41..d8fc52c 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
@@ -106,7 +106,7 @@ auto waterPressureHGK(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D) -> Re
 
 auto waterPressureWagnerPruss(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D) -> Reaktoro_::ThermoScalar
 {
-    return waterPressure(T, D, waterHelmholtzStateHGK);
+    return waterPressure(T, D, waterHelmholtzStateWagnerPruss);
 }
 
 auto waterSaturatedPressureWagnerPruss(Reaktoro_::Temperature T) -> Reaktoro_::ThermoScalar
@@ -175,7 +175,7 @@ auto waterSaturatedVapourDensityWagnerPruss(Reaktoro_::Temperature T) -> Reaktor
     const auto t376 = t186 * t186 * t16;
     const auto t716 = t376 * t186 * t86 * t86;
 
-    return Dcr * exp(Tcr/T * (c1*t26 + c2*t46 + c3*t86 + c4*t186 + c5*t376 + c6*t716));
+    return Dcr * exp(c1*t26 + c2*t46 + c3*t86 + c4*t186 + c5*t376 + c6*t716);
 }
 
 } // namespace Reaktoro
-- 
2.43.0


From 11c776543b5f15d9dfc44b61c40ddb98d6562ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:16 +0000
Subject: [PATCH 32/49] fix: Fernandez 1997 difference quotient in T vanishes
 at 0 C

---
 .../Substances/Solvent/WaterElectroFernandez1997.cpp   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
index a3ede01..149bd8a 100644
--- a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
+++ b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
@@ -4,6 +4,9 @@
 #include "Substance.h"
 #include "ThermoProperties.h"
 
+#include <algorithm>
+#include <cmath>
+
 namespace ThermoFun {
 
 const double I[] = {1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 10};
@@ -58,13 +61,14 @@ auto electroPropertiesWaterFernandez1997(/*PropertiesSolvent ps,*/ Reaktoro_::Te
     const auto eps = epsilonF(TK, RHO);
     const auto epsilon2 = eps * eps;
 
-    // numerical approximation of epsilonT and epsilonTT
-    Reaktoro_::Temperature T_plus (TC.val+TC.val*0.001);
+    // numerical approximation of epsilonT and epsilonTT; the step must not vanish at 0 C
+    const double stepT = std::max(std::abs(TC.val), 1.0)*0.001;
+    Reaktoro_::Temperature T_plus (TC.val+stepT);
     Reaktoro_::Temperature TK_plus (T_plus.val + 273.15);
     auto RHO_plus = th.propertiesSolvent(TK_plus.val, P.val, substance.symbol(), state).density;
     auto eps_plus = epsilonF(TK_plus, RHO_plus);
 
-    Reaktoro_::Temperature T_minus (TC.val-TC.val*0.001);
+    Reaktoro_::Temperature T_minus (TC.val-stepT);
     Reaktoro_::Temperature TK_minus (T_minus.val + 273.15);
     auto RHO_minus  = th.propertiesSolvent(TK_minus.val, P.val, substance.symbol(), state).density;
     auto eps_minus = epsilonF(TK_minus, RHO_minus);
-- 
2.43.0


From e88fe018679dc9077a348ed02a7b08da07ea1616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:31 +0000
Subject: [PATCH 33/49] fix: dielectric pressure derivatives in 1/Pa in all
 models

---
 ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp  | 6 +++---
 ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp | 6 +++---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp            | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
index 149bd8a..68ce059 100644
--- a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
+++ b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
@@ -91,13 +91,13 @@ auto electroPropertiesWaterFernandez1997(/*PropertiesSolvent ps,*/ Reaktoro_::Te
     const auto epsilonPP = (eps_plus + eps_minus - 2*eps)/pow(((P_plus-P_minus)*0.5),2);
 
     wep.epsilon   = eps;
-    wep.epsilonP  = epsilonP;
-    wep.epsilonPP = epsilonPP;
+    wep.epsilonP  = epsilonP*1e-05; // from 1/bar to 1/Pa
+    wep.epsilonPP = epsilonPP*1e-10;
     wep.epsilonT  = epsilonT;
     wep.epsilonTT = epsilonTT;
     wep.bornZ = -1.0/wep.epsilon;
     wep.bornY = wep.epsilonT/epsilon2;
-    wep.bornQ = wep.epsilonP/epsilon2*1e-05; // from 1/bar to 1/Pa
+    wep.bornQ = wep.epsilonP/epsilon2;
 //	we.bornU = we.epsilonTP/epsilon2 - 2.0*we.bornY*we.bornQ*we.epsilon;
 //	we.bornN = we.epsilonPP/epsilon2 - 2.0*we.bornQ*we.bornQ*we.epsilon;
     wep.bornX = wep.epsilonTT/epsilon2 - 2.0*wep.bornY*wep.bornY*wep.epsilon;
diff --git a/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp b/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
index e5a907b..5f305d1 100644
--- a/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
+++ b/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
@@ -70,13 +70,13 @@ auto electroPropertiesWaterSverjensky2014(/*PropertiesSolvent ps,*/ Reaktoro_::T
     const auto epsilonPP = (eps_plus + eps_minus - 2*eps)/pow(((P_plus-P_minus)*0.5),2);
 
     wep.epsilon   = eps;
-    wep.epsilonP  = epsilonP;
-    wep.epsilonPP = epsilonPP;
+    wep.epsilonP  = epsilonP*1e-05; // from 1/bar to 1/Pa
+    wep.epsilonPP = epsilonPP*1e-10;
     wep.epsilonT  = epsilonT;
     wep.epsilonTT = epsilonTT;
     wep.bornZ = -1.0/wep.epsilon;
     wep.bornY = wep.epsilonT/epsilon2;
-    wep.bornQ = wep.epsilonP/epsilon2*1e-05; // from 1/bar to 1/Pa
+    wep.bornQ = wep.epsilonP/epsilon2;
 //	we.bornU = we.epsilonTP/epsilon2 - 2.0*we.bornY*we.bornQ*we.epsilon;
 //	we.bornN = we.epsilonPP/epsilon2 - 2.0*we.bornQ*we.bornQ*we.epsilon;
     wep.bornX = wep.epsilonTT/epsilon2 - 2.0*wep.bornY*wep.bornY*wep.epsilon;
diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 7e60a0b..601eb02 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -210,7 +210,7 @@ auto WaterHGKgems::electroPropertiesWaterJNgems(int state) -> ElectroPropertiesS
 
     wp.epsilonT  = yborn * pow(eps,2.);
     wp.epsilonTT = (xborn + 2.*eps*pow(yborn,2.)) * pow(eps,2.);
-    wp.epsilonP  = qborn * pow(eps,2.);
+    wp.epsilonP  = qborn / 1e05 * pow(eps,2.); // from bar-1 to Pa-1
 
 return wp;
 }
-- 
2.43.0


From 1ffd39bf775d1e68a5a306c89a88c56733b9cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:15 +0000
Subject: [PATCH 34/49] fix: tesla is weber per square metre

---
 ThermoFun/Common/Units.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 373dfcd..fbb72e6 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -359,7 +359,7 @@ map<string, DerivedUnit> derivedUnitsMap =
     {"webers"       , {{1, "Wb" , 1}}},
 
     // Magnetic Flux Density Units
-    {"T"            , {{1 , "Wb" , 1}, {1 , "m", 2}}},
+    {"T"            , {{1 , "Wb" , 1}, {1 , "m", -2}}},
     {"gauss"        , {{0.0001 , "T", 1}}},
     {"tesla"        , {{1, "T", 1}}},
     {"teslas"       , {{1, "T", 1}}},
-- 
2.43.0


From 20bbfd9c2b4c892ff76c6ae5a44f1c6b51230a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:15 +0000
Subject: [PATCH 35/49] fix: powers of bar are powers of bar, not of kelvin

---
 ThermoFun/Common/Units.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index fbb72e6..e43c448 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -395,11 +395,11 @@ map<string, DerivedUnit> derivedUnitsMap =
     {"K^0.5"        , {{1, "K", 0.5}}},
     {"K^1.5"        , {{1, "K", 1.5}}},
 
-    {"bar^2"          , {{1, "K", 2}}},
-    {"bar^3"          , {{1, "K", 3}}},
-    {"bar^4"          , {{1, "K", 4}}},
-    {"bar^5"          , {{1, "K", 5}}},
-    {"bar^0.5"        , {{1, "K", 0.5}}}
+    {"bar^2"          , {{1, "bar", 2}}},
+    {"bar^3"          , {{1, "bar", 3}}},
+    {"bar^4"          , {{1, "bar", 4}}},
+    {"bar^5"          , {{1, "bar", 5}}},
+    {"bar^0.5"        , {{1, "bar", 0.5}}}
 };
 
 map<string, TemperatureUnit> temperatureUnitsMap =
-- 
2.43.0


From 889ff10f020e6fd2a9e90de454f51fd690684b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 36/49] fix: keep half-integer powers in the dimension of a
 unit

---
 ThermoFun/Common/Units.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index e43c448..3f23c96 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -478,13 +478,13 @@ double factor(const DerivedUnit& derivedUnit)
     return factor(derivedUnit, 0);
 }
 
-void removeZero(map<string, int>& res)
+void removeZero(map<string, double>& res)
 {
     for(auto iter = res.begin(); iter != res.end();)
         if(iter->second == 0) res.erase(iter++); else ++iter;
 }
 
-void dimension(const string& symbol, int multpower, map<string, int>& res)
+void dimension(const string& symbol, double multpower, map<string, double>& res)
 {
     if(temperatureUnitsMap.count(symbol)) { res[symbol] += multpower; return; }
     checkDerivedUnit(symbol);
@@ -494,24 +494,24 @@ void dimension(const string& symbol, int multpower, map<string, int>& res)
         dimension(unit.symbol, unit.power * multpower, res);
 }
 
-void dimension(const DerivedUnit& derivedUnit, unsigned pos, map<string, int>& res)
+void dimension(const DerivedUnit& derivedUnit, unsigned pos, map<string, double>& res)
 {
     if(pos == derivedUnit.size()) return;
     dimension(derivedUnit[pos].symbol, derivedUnit[pos].power, res);
     dimension(derivedUnit, pos + 1, res);
 }
 
-map<string, int> dimension(const string& symbol)
+map<string, double> dimension(const string& symbol)
 {
-    map<string, int> res;
+    map<string, double> res;
     dimension(symbol, 1, res);
     removeZero(res);
     return res;
 }
 
-map<string, int> dimension(const DerivedUnit& derivedUnit)
+map<string, double> dimension(const DerivedUnit& derivedUnit)
 {
-    map<string, int> res;
+    map<string, double> res;
     dimension(derivedUnit, 0, res);
     removeZero(res);
     return res;
-- 
2.43.0


From 869cac58849089dfa1f9c512d9534ffbf4208696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 37/49] fix: the unit 1 has no dimension

---
 ThermoFun/Common/Units.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 3f23c96..cbb612c 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -481,7 +481,7 @@ double factor(const DerivedUnit& derivedUnit)
 void removeZero(map<string, double>& res)
 {
     for(auto iter = res.begin(); iter != res.end();)
-        if(iter->second == 0) res.erase(iter++); else ++iter;
+        if(iter->second == 0 || iter->first == "1") res.erase(iter++); else ++iter; // "1" is nondimensional
 }
 
 void dimension(const string& symbol, double multpower, map<string, double>& res)
-- 
2.43.0


From 6f2c00cabadb782da1cbca8b2f850abfda895bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 38/49] fix: reject ill-formed unit strings

---
 ThermoFun/Common/Units.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index cbb612c..760cb7d 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -547,7 +547,8 @@ inline void unmatchedParenthesisError()
 
 std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
 {
-    if(symbol.empty()) return nullptr;
+    if(symbol.empty() || pos >= symbol.size())
+        throw std::runtime_error("*** Error *** there is a missing unit in the unit string.");
 
     if(symbol[pos] == ')')
     {
@@ -559,6 +560,9 @@ std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
             string left_str  = symbol.substr(0, i-1);
             string right_str = symbol.substr(i+1, pos-i-1);
 
+            if(op_str != "*" && op_str != "/")
+                throw std::runtime_error("*** Error *** there is a missing operator before a parenthesis in the unit string.");
+
             std::shared_ptr<Node> parent(new Node(op_str));
             parent->left  = parseUnit(left_str, left_str.size()-1);
             parent->right = parseUnit(right_str, right_str.size()-1);
-- 
2.43.0


From 8c3a4fea5f407c00131e79cb63ac827e7a0f0d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:55 +0000
Subject: [PATCH 39/49] fix: keep increments inside the requested range

---
 ThermoFun/Batch/ThermoBatch.cpp | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 4e73029..73145d5 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -143,28 +143,21 @@ struct ThermoBatch::Impl
                     addTPpair(c,r);
     }
 
+    // values from min to max (included, within rounding), a non-positive step gives only min
+    auto incrementValues (const double &min, const double &max, const double &step) -> std::vector<double>
+    {
+        std::vector<double> values = {min};
+        if (step > 0)
+            for (unsigned i = 1; min + i*step <= max + 1e-9*step; i++)
+                values.push_back(min + i*step);
+        return values;
+    }
+
     auto addTPpairs (const double &Tmin, const double &Tmax, const double &Tstep,
                      const double &Pmin, const double &Pmax, const double &Pstep) -> void
     {
         clearTPpairs();
-        double t = Tmin-Tstep;
-        double p = Pmin-Pstep;
-        std::vector<double> temperatures;
-        std::vector<double> pressures;
-
-        do
-        {
-            p = p + Pstep;
-            pressures.push_back(p);
-        } while (p < Pmax);
-
-        do
-        {
-            t = t + Tstep;
-            temperatures.push_back(t);
-        } while (t < Tmax);
-
-        addTPpairs(temperatures, pressures);
+        addTPpairs(incrementValues(Tmin, Tmax, Tstep), incrementValues(Pmin, Pmax, Pstep));
     }
 
     auto addTPpairs (const vvd &tpPairs) -> void
-- 
2.43.0


From 943c5ce7784cd6b0eda6956bdb4ba5cc489a0992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:04 +0000
Subject: [PATCH 40/49] fix: look up property grid cells by their temperature
 and pressure

---
 ThermoFun/Batch/OutputBatch.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 6783832..214b155 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -319,8 +319,6 @@ auto Output::foutPropertyGrid(const std::string &property, const size_t &index_p
     if (pimpl->api.outputSettings().isFixed) pimpl->fProperties << std::fixed;
     if (pimpl->api.outputSettings().isScientific) pimpl->fProperties << std::scientific;
 
-    size_t count = 0;
-
     if (outSettings.loopTemperatureThenPressure)
     {
         columns          = pressures;
@@ -332,23 +330,28 @@ auto Output::foutPropertyGrid(const std::string &property, const size_t &index_p
     for (unsigned i=0; i<symbols.size(); i++)
         for (auto r : rows)
         {
-            if (count == results.size())
-                break;
             pimpl->fProperties << find_and_replace(symbols[i], s, "_");
             pimpl->fProperties << std::setprecision(digits.at(rowData));
             pimpl->fProperties << s << r;
 
             for(auto c : columns)
             {
-                auto result = results[count][index_property];
+                // result of the T-P pair of this cell, not calculated if there is no such pair
+                auto pair = outSettings.loopTemperatureThenPressure ? std::vector<double>{r, c} : std::vector<double>{c, r};
+                size_t index = tpPairs.size()*i + (std::find(tpPairs.begin(), tpPairs.end(), pair) - tpPairs.begin());
+                if (index >= tpPairs.size()*(i+1) || index >= results.size())
+                {
+                    pimpl->fProperties << s << "NaN";
+                    continue;
+                }
+
+                auto result = results[index][index_property];
                 pimpl->fProperties << std::setprecision(digits.at(property));
 
                 if (result.sta.first == Reaktoro_::Status::notdefined && outSettings.writeNaNifNotDefinedValue)
                     pimpl->fProperties << s << "NaN";
                 else
                     pimpl->fProperties << s << units::convert(result.val, fromUnits.at(property), toUnits.at(property));
-                    
-                count++;
             }
             pimpl->fProperties << std::endl;
         }
-- 
2.43.0


From 2f7d38a190fca410db36a92197bf87034fba9cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 41/49] fix: leave absent numbers of element and substance
 records at zero

---
 ThermoFun/Common/ParseJsonToData.cpp | 7 +++++--
 ThermoFun/ThermoParameters.h         | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 2be4ad0..711beed 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -488,13 +488,16 @@ auto parseElement(const std::string &data) -> Element
         if (j.contains("number"))
             if (!j["number"].is_null())
                 e.setNumber(j["number"].get<int>());
-        double val;
+        double val = 0.0;
         read_value_unit(j, "entropy", val, "J/(mol*K)");
         e.setEntropy(val);
+        val = 0.0;
         read_value_unit(j, "heat_capacity", val, "J/(mol*K)");
         e.setHeatCapacity(val);
+        val = 0.0;
         read_value_unit(j, "atomic_mass", val, "g/mol");
         e.setMolarMass(val);
+        val = 0.0;
         read_value_unit(j, "volume", val, "J/bar");
         e.setVolume(val);
 
@@ -551,7 +554,7 @@ auto parseSubstance(const std::string &data) -> Substance
             if (!j["reaction"].is_null())
                 s.setReactionSymbol(j["reaction"]);
 
-        double val;
+        double val = 0.0;
         read_value_unit(j, "mass_per_mole", val, "g/mol");
         s.setMolarMass(val);
 
diff --git a/ThermoFun/ThermoParameters.h b/ThermoFun/ThermoParameters.h
index 957a873..a9ea6d5 100644
--- a/ThermoFun/ThermoParameters.h
+++ b/ThermoFun/ThermoParameters.h
@@ -75,10 +75,10 @@ typedef std::vector<std::pair<std::string,Method>> listmethods;
 struct ThermoParametersSubstance
 {
     /// Isothermal compressibility (for condensed substances)
-    double isothermal_compresibility;
+    double isothermal_compresibility = 0.0;
 
     /// Isobaric expansivity (for condensed substances)
-    double isobaric_expansivity;
+    double isobaric_expansivity = 0.0;
 
     /// Lower and upper T limits for Cp=f(T) equation
     vvd temperature_intervals;
-- 
2.43.0


From 6075fe1b8e57c9ee07994797fc5d4db029316e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 42/49] fix: accept empty unit and value lists in records

---
 ThermoFun/Common/ParseJsonToData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 711beed..bdf90b0 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -155,7 +155,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
     if (j.contains(data)) {
         const auto& entry = j[data];
 
-        if (entry.contains("units") && entry["units"].is_array() && !entry["units"][0].is_null())
+        if (entry.contains("units") && entry["units"].is_array() && !entry["units"].empty() && !entry["units"][0].is_null())
             unit_from = entry["units"][0].get<std::string>();
 
         // Temporary fixes
@@ -169,7 +169,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
             factor = 1;
         }
 
-        if (entry.contains("values") && entry["values"].is_array() && !entry["values"][0].is_null()) {
+        if (entry.contains("values") && entry["values"].is_array() && !entry["values"].empty() && !entry["values"][0].is_null()) {
             value = units::convert(entry["values"][0].get<double>() * factor, unit_from, unit_to);
         }
     }
-- 
2.43.0


From 7d4688ed07fd1638f64234da8dbf1a7396c789a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 43/49] fix: select the HP98 and AN91 solute models from
 records

---
 ThermoFun/Common/ParseJsonToData.cpp | 2 ++
 ThermoFun/GlobalVariables.h          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index bdf90b0..9031a25 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -233,6 +233,8 @@ auto setTPMethods_old(const SubstanceTPMethodType &type, Substance &s) -> void
     case SubstanceTPMethodType::water_diel_jnort91_gems:
     case SubstanceTPMethodType::water_diel_sverj14:
     case SubstanceTPMethodType::water_diel_fern97:
+    case SubstanceTPMethodType::solute_holland_powell98:
+    case SubstanceTPMethodType::solute_anderson91:
         s.setMethodGenEoS(MethodGenEoS_Thrift::type(new_old_s_methodtype.at(type)));
         break;
     case SubstanceTPMethodType::landau_holland_powell98:
diff --git a/ThermoFun/GlobalVariables.h b/ThermoFun/GlobalVariables.h
index 8fd9466..1bf067b 100644
--- a/ThermoFun/GlobalVariables.h
+++ b/ThermoFun/GlobalVariables.h
@@ -519,6 +519,8 @@ static const std::map<const SubstanceTPMethodType, const int> new_old_s_methodty
   {SubstanceTPMethodType::water_diel_jnort91_gems, 118},
   {SubstanceTPMethodType::water_diel_sverj14, 120},
   {SubstanceTPMethodType::water_diel_fern97, 121},
+  {SubstanceTPMethodType::solute_holland_powell98, 122},
+  {SubstanceTPMethodType::solute_anderson91, 123},
   {SubstanceTPMethodType::landau_holland_powell98, 201},
   {SubstanceTPMethodType::landau_berman88, 202},
   {SubstanceTPMethodType::cp_ft_equation_saxena86, 203},
-- 
2.43.0


From 749b05a2b1a817350db2d426674b3834fbe16bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 44/49] fix: add up repeated reactants of a reaction record

---
 ThermoFun/Common/ParseJsonToData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 9031a25..3314a4c 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -458,7 +458,7 @@ auto getReactants(const json &r) -> std::map<std::string, double>
         if (j.contains("symbol"))
             if (j.contains("coefficient"))
                 if (!j["symbol"].is_null() && !j["coefficient"].is_null())
-                    reactants[j["symbol"]] = j["coefficient"].get<double>();
+                    reactants[j["symbol"]] += j["coefficient"].get<double>();
     }
     return reactants;
 }
-- 
2.43.0


From b3efe1fec663801afc7ba86ae32e7227c9759cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:20 +0000
Subject: [PATCH 45/49] fix: add up repeated species of a reaction equation

---
 ThermoFun/Reaction.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Reaction.cpp b/ThermoFun/Reaction.cpp
index 86a9395..f5e44e2 100644
--- a/ThermoFun/Reaction.cpp
+++ b/ThermoFun/Reaction.cpp
@@ -120,6 +120,9 @@ struct Reaction::Impl
         if (symbol.empty())
             symbol = reactionEquation;
 
+        // the equation replaces the reactants of an earlier one
+        reactants.clear();
+
         std::size_t eqpos = equation.find("=");
         std::string  str_reactants = equation.substr(0, eqpos);
         std::string  str_products = equation.substr( eqpos+1);
@@ -132,7 +135,7 @@ struct Reaction::Impl
             reactant = extractCoef( el, coef );
             thfun_logger->trace(" extractCoef data: {} reactant: {} coef: {}", el, reactant, coef);
             if(!reactant.empty())
-                reactants[reactant] = coef*(-1.);
+                reactants[reactant] += coef*(-1.);
         }
 
         parts = regexp_split(str_products, "\\s+\\+\\s+" /*"\\s+"*/ );
@@ -141,7 +144,7 @@ struct Reaction::Impl
             reactant = extractCoef( el, coef );
             thfun_logger->trace(" extractCoef data: {} reactant: {} coef: {}", el, reactant, coef);
             if(!reactant.empty())
-                reactants[reactant] = coef;
+                reactants[reactant] += coef;
         }
     }
 };
-- 
2.43.0


From fa548fdab2abeadae4fb2eea30d95f95eb4d3a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:40 +0000
Subject: [PATCH 46/49] fix: use appended records of known elements in formulas

---
 ThermoFun/Database.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index e95ebb6..fd9a3b2 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -412,18 +412,14 @@ auto Database::operator=(Database other) -> Database&
 
 auto Database::appendData(std::string filename) -> void
 {
-    auto elements_number = pimpl->mapElements().size();
     pimpl->fromFile(filename);
-    if (elements_number != pimpl->mapElements().size())
-        pimpl->setDBElements(pimpl->mapElements());
+    pimpl->setDBElements(pimpl->mapElements());
 }
 
 auto Database::appendData(std::vector<std::string> jsonRecords, std::string _label = "unknown label") -> void
 {
-    auto elements_number = pimpl->mapElements().size();
     pimpl->fromJSONs(jsonRecords, _label);
-    if (elements_number != pimpl->mapElements().size())
-        pimpl->setDBElements(pimpl->mapElements());
+    pimpl->setDBElements(pimpl->mapElements());
 }
 
 auto Database::addElement(const Element& element) -> void
-- 
2.43.0


From 311d605f4f4ffe96404eef8e7066e382776f0e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:31 +0000
Subject: [PATCH 47/49] fix: give the second pressure derivative of the
 Zhang-Duan density per square pascal

---
 ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
index ecc57d1..7162a4d 100644
--- a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
+++ b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
@@ -196,7 +196,7 @@ auto propertiesWaterZhangDuan2005(Reaktoro_::Temperature T, Reaktoro_::Pressure
     ps.densityT  = DdT; ps.densityT.ddp*=1e-05;
     ps.densityP  = DdP*1e-05;
     ps.densityTT = Dd2T; ps.densityTT.ddp*=1e-05;
-    ps.densityPP = Dd2P*1e-05;
+    ps.densityPP = Dd2P*1e-10;
     ps.Alpha     = -ps.densityT/ps.density;
     ps.Beta      = ps.densityP/ps.density/*/1e+05*/; // from 1/bar to 1/Pa
     ps.dAldT     = -ps.densityTT/ps.density + ps.Alpha*ps.Alpha;
-- 
2.43.0


From 489fbbf3b16430c90d74f03e0a15b22ea1a15254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:41 +0000
Subject: [PATCH 48/49] fix: give the pressure derivative members of Zhang-Duan
 densities per pascal

---
 ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
index 7162a4d..b5e6426 100644
--- a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
+++ b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
@@ -176,12 +176,12 @@ auto propertiesWaterZhangDuan2005(Reaktoro_::Temperature T, Reaktoro_::Pressure
 //    const auto Vd2T = (V_plus + V_minus - 2*V)/pow(((T_plus-T_minus)*0.5),2);
 
     // finite difference P
-    Reaktoro_::Pressure P_plus (P.val + P.val*0.001);
+    Reaktoro_::Pressure P_plus (P.val + P.val*0.001); P_plus.ddp = P.ddp;
     Vr_plus = waterMolarVolume(T, P_plus, Vr);
     V_plus = Vr_plus * waterCriticalVolume/10;
     D_plus = H2OMolarMass/V_plus *100;
 
-    Reaktoro_::Pressure P_minus (P.val - P.val*0.001);
+    Reaktoro_::Pressure P_minus (P.val - P.val*0.001); P_minus.ddp = P.ddp;
     Vr_minus = waterMolarVolume(T, P_minus, Vr);
     V_minus = Vr_minus * waterCriticalVolume/10;
     D_minus = H2OMolarMass/V_minus *100;
@@ -192,10 +192,10 @@ auto propertiesWaterZhangDuan2005(Reaktoro_::Temperature T, Reaktoro_::Pressure
     const auto Dd2P = (D_plus + D_minus - 2*D)/pow(((P_plus-P_minus)*0.5),2);
 //    const auto Vd2P = (V_plus + V_minus - 2*V)/pow(((P_plus-P_minus)*0.5),2);
 
-    ps.density   = D /* * 1000*/; ps.density.ddp*=1e-05;
-    ps.densityT  = DdT; ps.densityT.ddp*=1e-05;
+    ps.density   = D /* * 1000*/;
+    ps.densityT  = DdT;
     ps.densityP  = DdP*1e-05;
-    ps.densityTT = Dd2T; ps.densityTT.ddp*=1e-05;
+    ps.densityTT = Dd2T;
     ps.densityPP = Dd2P*1e-10;
     ps.Alpha     = -ps.densityT/ps.density;
     ps.Beta      = ps.densityP/ps.density/*/1e+05*/; // from 1/bar to 1/Pa
-- 
2.43.0


From 120996fd91d1699cef06278737b4fb1bbc8daccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:21 +0000
Subject: [PATCH 49/49] fix: divide by the reduced density in the slope of the
 HGK expansivity

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 601eb02..97330fc 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -2976,7 +2976,7 @@ auto WaterHGKgems::dalHGK(double *d, double t, double alpha) -> double
         drdd   += nc->g[i] * xdell * ex12 / di * qm;
 
         dr2dd  += nc->g[i] * xdell * ex12 / di / di * (qm * qm -
-                  l / di / di - ai * k * km * pow(del,k-2.0e0));
+                  l / del / del - ai * k * km * pow(del,k-2.0e0));
 
         dr2ddt -= nc->g[i] * 2.0e0 * bi * tau * ex12 * xdell / ti / di * qm;
 
-- 
2.43.0

