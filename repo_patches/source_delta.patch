From 8771860273f70930894c5796625d0b7edbf97437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 01/29] fix: ZZ division and modulo by zero throw for
 multi-word dividends too

---
 clpoly/number/ZZ.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index b86ca8b..9e152d6 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -468,8 +468,8 @@ public:
 
     // ---- arithmetic: truncated division (consistent with mpz_class) ----
     friend ZZ operator/(const ZZ& a, const ZZ& b) {
+        if (b._is_small() && b._val == 0) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             // handle INT64_MIN / -1 overflow
             if (a._val == INT64_MIN && b._val == -1) {
                 ZZ r;
@@ -501,8 +501,8 @@ public:
 
     // ---- arithmetic: modulo (truncated, consistent with mpz_class) ----
     friend ZZ operator%(const ZZ& a, const ZZ& b) {
+        if (b._is_small() && b._val == 0) throw std::domain_error("ZZ: modulo by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: modulo by zero");
             if (a._val == INT64_MIN && b._val == -1) return ZZ(0);
             return ZZ(a._val % b._val);
         }
@@ -729,8 +729,8 @@ public:
 
     // ---- floor division (static, for number.hh template specialization) ----
     static void fdiv_q(ZZ& q, const ZZ& a, const ZZ& b) {
+        if (b._is_small() && b._val == 0) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             if (a._val == INT64_MIN && b._val == -1) {
                 q._ensure_mpz();
                 _mpz_set_s64(q._mpz, INT64_MIN);
@@ -765,8 +765,8 @@ public:
     }
 
     static void fdiv_qr(ZZ& q, ZZ& r, const ZZ& a, const ZZ& b) {
+        if (b._is_small() && b._val == 0) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             if (a._val == INT64_MIN && b._val == -1) {
                 q._ensure_mpz();
                 _mpz_set_s64(q._mpz, INT64_MIN);
@@ -808,8 +808,8 @@ public:
 
     // ---- floor remainder (static) ----
     static void fdiv_r(ZZ& r, const ZZ& a, const ZZ& b) {
+        if (b._is_small() && b._val == 0) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             int64_t rem = a._val % b._val;
             if (rem != 0 && ((rem ^ b._val) < 0))
                 rem += b._val;
-- 
2.43.0


From 51cad20ba2eba866247350fc5114ea7e121259cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 02/29] fix: ZZ::fdiv_r of INT64_MIN by -1 no longer traps

---
 clpoly/number/ZZ.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index 9e152d6..0cda584 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -810,7 +810,7 @@ public:
     static void fdiv_r(ZZ& r, const ZZ& a, const ZZ& b) {
         if (b._is_small() && b._val == 0) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            int64_t rem = a._val % b._val;
+            int64_t rem = b._val == -1 ? 0 : a._val % b._val;
             if (rem != 0 && ((rem ^ b._val) < 0))
                 rem += b._val;
             if (r._mpz) { _mpz_del(r._mpz); r._mpz = nullptr; }
-- 
2.43.0


From 757b4c13a7d306f72a2d5ecabb82c35b8a69a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 03/29] fix: normalization drops terms whose merged coefficient
 is zero

---
 clpoly/basic.hh | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 7869414..d927976 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -98,29 +98,21 @@ namespace clpoly{
         auto e=v.end();
         if (!std::is_sorted(b,e,comp))
             std::sort(b,e,comp);
-        auto t2=b;
-        while (t2!=e && zore_check<T2>()(t2->second))
-            ++t2;
-        if (t2==e)
-            return 0;
         auto t1=b;
-        //std::cout<<t2->first<<":"<<t2->second<<std::endl;
-        if (t1!=t2)
-            *t1=std::move(*t2);
-        ++t2;
-        std::size_t tmp_size=1;
-        for(;t2!=e;++t2)
-            //std::cout<<t2->first<<":"<<t2->second<<std::endl;
-            if (!zore_check<T2>()(t2->second))
-                if (t1->first==t2->first) //equal_to
-                    t1->second+=t2->second;//add_assignment
-                else
-                {
-                    ++t1;
-                    ++tmp_size;
-                    if (t1!=t2)
-                        *t1=std::move(*t2);
-                }
+        auto t2=b;
+        std::size_t tmp_size=0;
+        while (t2!=e)
+        {
+            if (t1!=t2)
+                *t1=std::move(*t2);
+            for (++t2;t2!=e && t1->first==t2->first;++t2) //equal_to
+                t1->second+=t2->second;//add_assignment
+            if (!zore_check<T2>()(t1->second))
+            {
+                ++t1;
+                ++tmp_size;
+            }
+        }
         return tmp_size;
     }
     template <class T,class Tv,class compare>
-- 
2.43.0


From 62071e3d993d2342cf02f8f444ef902e242a6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 04/29] fix: pair_vec_div keeps only the coefficient remainder
 in R

---
 clpoly/basic.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index d927976..a3fc06e 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -814,7 +814,7 @@ namespace clpoly{
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
 
                     if(!zore_check<T2>()(k2)){
-                        R.push_back({std::move(m),std::move(k)});
+                        R.push_back({std::move(m),std::move(k2)});
                     }
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
                     if(!zore_check<T2>()(k1)){
-- 
2.43.0


From 467498c88badf7be616f4391f3be2beddf840887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 05/29] fix: monomial compression is refused when exponents do
 not fit the packed fields

---
 clpoly/monomial_order.hh | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index 2250c00..d7b6da2 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -221,10 +221,16 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
-        if (delta)
-            if (vars.size()>1 && std::max(v1_.begin()->first.deg(),v2_.begin()->first.deg())>=(uint64_t(1)<<(64/(vars.size()+1)-1))) return false;
-        else
-            if (vars.size()>1 && v1_.begin()->first.deg()+v2_.begin()->first.deg()>=(uint64_t(1)<<(64/(vars.size()+1)))) return false;
+        if (vars.size()>1)
+        {
+            const unsigned int l=64/(vars.size()+1);
+            if (l==0) return false;
+            if (delta)
+            {
+                if (std::max(v1_.begin()->first.deg(),v2_.begin()->first.deg())>=(uint64_t(1)<<(l-1))) return false;
+            }
+            else if (v1_.begin()->first.deg()+v2_.begin()->first.deg()>=(uint64_t(1)<<l)) return false;
+        }
         return true;
     }
     template<class var_comp>
@@ -443,10 +449,16 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
-        if (delta)
-            if (vars.size()>1  && std::max(deg1,deg2)>=(uint64_t(1)<<(64/vars.size()-1))) return false;
-        else    
-            if (vars.size()>1  && deg1+deg2>=(uint64_t(1)<<(64/vars.size()))) return false;
+        if (vars.size()>1)
+        {
+            const unsigned int l=64/vars.size();
+            if (l==0) return false;
+            if (delta)
+            {
+                if (std::max(deg1,deg2)>=(uint64_t(1)<<(l-1))) return false;
+            }
+            else if (deg1+deg2>=(uint64_t(1)<<l)) return false;
+        }
         return true;
     }
     template<class var_order>
-- 
2.43.0


From e73e93b34e4e1642a62a9b8b70a017f8ee55f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 06/29] fix: packed division falls back when an intermediate
 exponent overflows its field

---
 clpoly/monomial.hh | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/clpoly/monomial.hh b/clpoly/monomial.hh
index e75569d..a071542 100644
--- a/clpoly/monomial.hh
+++ b/clpoly/monomial.hh
@@ -366,7 +366,8 @@ namespace clpoly
         std::size_t i, j, s,i1;
         T2 k;
         T2 k1;
-        while (heap_size!=0 || v1_ptr!=v1_end)
+        bool overflow=false;
+        while (!overflow && (heap_size!=0 || v1_ptr!=v1_end))
         {
             if (v1_ptr!=v1_end && (heap_size==0 || !gcomp(heap[0]->mono,v1_ptr->first)))
             {
@@ -388,6 +389,7 @@ namespace clpoly
                     if (++(heap[0]->v1_ptr)!=new_v_c.end()){
                         lin[lin_size++]=heap[0];
                         heap[0]->mono=heap[0]->v1_ptr->first+heap[0]->v2_ptr->first;
+                        overflow=overflow || (heap[0]->mono & mold);
                         heap[0]=heap[0]->next;  
                     }
                     else{
@@ -417,6 +419,7 @@ namespace clpoly
                             --reset_h;
                             node[reset_h].v1_ptr=new_c_ptr;
                             node[reset_h].mono=new_c_ptr->first+node[reset_h].v2_ptr->first;
+                            overflow=overflow || (node[reset_h].mono & mold);
                             VHC_insert(heap,heap_size,node+reset_h,gcomp);
                         }
                     }
@@ -429,6 +432,11 @@ namespace clpoly
         delete [] lin;
         delete [] node;
         //std::cout<<"压缩乘法结束\n";
+        if (overflow)   // an intermediate exponent no longer fits its packed field
+        {
+            new_v.clear();
+            return false;
+        }
         return true;
     }
     template <class T2,class T3,class T4,class compare>
@@ -491,7 +499,8 @@ namespace clpoly
         T2 k;
         T2 k1;
         T2 k2;
-        while (heap_size!=0 || v1_ptr!=v1_end)
+        bool overflow=false;
+        while (!overflow && (heap_size!=0 || v1_ptr!=v1_end))
         {
             if (v1_ptr!=v1_end && (heap_size==0 || !gcomp(heap[0]->mono,v1_ptr->first)))
             {
@@ -513,6 +522,7 @@ namespace clpoly
                     if (++(heap[0]->v1_ptr)!=new_v_c.end()){
                         lin[lin_size++]=heap[0];
                         heap[0]->mono=heap[0]->v1_ptr->first+heap[0]->v2_ptr->first;
+                        overflow=overflow || (heap[0]->mono & mold);
                         heap[0]=heap[0]->next;  
                     }
                     else{
@@ -546,6 +556,7 @@ namespace clpoly
                             --reset_h;
                             node[reset_h].v1_ptr=new_c_ptr;
                             node[reset_h].mono=new_c_ptr->first+node[reset_h].v2_ptr->first;
+                            overflow=overflow || (node[reset_h].mono & mold);
                             VHC_insert(heap,heap_size,node+reset_h,gcomp);
                         }
                     }
@@ -562,6 +573,12 @@ namespace clpoly
         delete [] lin;
         delete [] node;
         //std::cout<<"压缩乘法结束\n";
+        if (overflow)   // an intermediate exponent no longer fits its packed field
+        {
+            new_v.clear();
+            R.clear();
+            return false;
+        }
         return true;
     }
 }
-- 
2.43.0


From e12d9d7bbd98b1e06b413591a5a44bd87fb9298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 07/29] fix: anonymous variables never take a name already in
 use

---
 clpoly/variable.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/variable.hh b/clpoly/variable.hh
index 56cf444..c188a30 100644
--- a/clpoly/variable.hh
+++ b/clpoly/variable.hh
@@ -127,6 +127,7 @@ namespace clpoly{
         if (variable::free_serial.empty())
         {
             std::string variable_name="#var_"+ std::to_string(variable::variables.size());
+            while (variable::name_map.count(variable_name)) variable_name+='_';
             variable::name_map[variable_name]=variable::variables.size();
             variable::variables.push_back(variable_name);
             return variable::variables.size()-1;
@@ -135,6 +136,7 @@ namespace clpoly{
         {
             std::size_t s=variable::free_serial.back();
             std::string variable_name="#var_"+ std::to_string(s);
+            while (variable::name_map.count(variable_name)) variable_name+='_';
             variable::free_serial.pop_back();
             variable::name_map[variable_name]=s;
             variable::variables[s]=variable_name;
-- 
2.43.0


From 0a406f3647507adbca64ab676fd944ad80c23209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 08/29] fix: adding a constant to a polynomial keeps normal
 form and accepts the zero polynomial

---
 clpoly/polynomial_.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 3581379..6bf6686 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -179,9 +179,13 @@ namespace clpoly{
     template<class Tc>
     polynomial_<Tc> operator+ (polynomial_<Tc>  O,Tc  m)
     {
-        if (O.empty() || O.back().first.empty())
+        if (!O.empty() && O.back().first.empty())
+        {
             O.back().second+=m;
-        else
+            if (zore_check<Tc>()(O.back().second))
+                O.data().pop_back();
+        }
+        else if (!zore_check<Tc>()(m))
             O.push_back({{},std::move(m)});
         return O;
     }
-- 
2.43.0


From 4587b40e221d6959a4b49031e276818622d4df5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 09/29] fix: derivative over Z/p drops terms whose coefficient
 vanishes

---
 clpoly/polynomial.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index 15a6b99..ed7a16a 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -870,7 +870,9 @@ namespace clpoly{
             }
             if (b)
             {
-                Pout.push_back({std::move(m),b*i.second});
+                Tc c=b*i.second;
+                if (!zore_check<Tc>()(c))
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
@@ -892,7 +894,9 @@ namespace clpoly{
                 if (ptr->second-1)
                     m.push_back({x,ptr->second-1});
                 for (++ptr;ptr!=i.first.end();++ptr) m.push_back(*ptr);
-                Pout.push_back({std::move(m),i.first.front().second*i.second});
+                Tc c=i.first.front().second*i.second;
+                if (!zore_check<Tc>()(c))
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
-- 
2.43.0


From 7bcee54980cdd7f0f8ef2d200512a281ec0691b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 10/29] fix: coeff(F,v) splits by v when F already has a
 main-variable order

---
 clpoly/polynomial.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index ed7a16a..ec73a0d 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -203,12 +203,12 @@ namespace clpoly{
     {
         univariate_priority_order comp_v(v);
         polynomial_<Tc,univariate_priority_order> F_(&comp_v);
-        F_=F;
+        poly_convert(F,F_);
         auto coeff_l=coeff(F_);
         std::vector<polynomial_<Tc,comp>>  coF(coeff_l.size(),polynomial_<Tc,comp>(F.comp_ptr()));
         for (size_t i=0;i<coeff_l.size();++i)
         {
-            coF[i]=coeff_l[i];
+            poly_convert(coeff_l[i],coF[i]);
         }
         return coF;
     }
-- 
2.43.0


From 831f3692799b93dac369a5c08a4f65f026e4cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 11/29] fix: division by a single term keeps remainder
 monomials and drops zero quotients

---
 clpoly/basic.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index a3fc06e..71d8004 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -595,7 +595,8 @@ namespace clpoly{
                 if (is_divexact(m,i.first,v2_.begin()->first))
                 {
                     __div(k,i.second,v2_.begin()->second);
-                    new_v.push_back({std::move(m),std::move(k)});
+                    if (!zore_check<T2>()(k))
+                        new_v.push_back({std::move(m),std::move(k)});
                 }
             }
             return void();
@@ -733,7 +734,7 @@ namespace clpoly{
                 {
                     __div(k,k1,i.second,v2_.begin()->second);
                     if (k1)
-                        R.push_back({m,std::move(k1)});
+                        R.push_back({i.first,std::move(k1)});
                     if (k)
                         new_v.push_back({std::move(m),std::move(k)});
 
-- 
2.43.0


From ea47b29ab6e4ef5da7f3cedb0a168324c5ea5407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 12/29] fix: powers and zero multiples keep the polynomial's
 monomial order

---
 clpoly/polynomial_.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 6bf6686..c239ad7 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -43,7 +43,10 @@ namespace clpoly{
         if (p.empty()) {
             if (i == 0) {
                 if constexpr (std::is_constructible_v<Tc, int>) {
-                    o.data().push_back(std::make_pair(Tm(), Tc(1)));
+                    if constexpr (std::is_constructible_v<Tm, const compare*>)
+                        o.data().push_back(std::make_pair(Tm(p.comp_ptr()), Tc(1)));
+                    else
+                        o.data().push_back(std::make_pair(Tm(), Tc(1)));
                 } else {
                     assert(false && "pow(empty polynomial, 0): no coefficient context");
                 }
@@ -52,7 +55,7 @@ namespace clpoly{
         }
         Tc one = p.front().second;
         one = 1;
-        o.data().push_back(std::make_pair(Tm(), one));
+        o.data().push_back(std::make_pair(pow(p.front().first,0), one));
         switch (i)
         {
         case 0:
@@ -226,7 +229,7 @@ namespace clpoly{
     polynomial_<Tc,comp> operator* (polynomial_<Tc,comp>  O,Tc c)
     {
         if (!c)
-            return polynomial_<Tc,comp>();
+            return polynomial_<Tc,comp>(O.comp_ptr());
         for (auto & i:O)
             i.second*=c;
         O.normalization();
-- 
2.43.0


From 91127e1d9cf0c230907030e63471ab7863d2af54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 13/29] fix: squarefree factorization does not report -1 as a
 factor

---
 clpoly/polynomial_gcd.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 3a6f63c..0f6eacb 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -107,6 +107,8 @@ namespace clpoly{
         if (is_number(F))
             return {{F,1}};
         auto f_cont=cont(F);
+        if ((F.front().second<0)!=(f_cont.front().second<0))
+            pair_vec_negate(f_cont.data()); // the sign belongs to the content
         auto F_=F/f_cont;
         auto lst=squarefreefactorize(f_cont);
         polynomial_<ZZ,lex_<var_order>> F_1(F.comp_ptr()),F_2(F.comp_ptr()),F_3(F.comp_ptr());
@@ -116,6 +118,8 @@ namespace clpoly{
             // std::cout<<"D(F_):"<<derivative(F_)<<std::endl;
             
             F_1=polynomial_GCD(F_,derivative(F_));
+            if (F_1.front().second<0)
+                pair_vec_negate(F_1.data());
             // std::cout<<"F_1:"<<F_1<<std::endl;
             if (is_number(F_1))
             {
-- 
2.43.0


From 744e34851e18433f567c6520b5da309a652a8407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 14/29] fix: gcd Chinese remaindering of new terms no longer
 wraps at 64 bits

---
 clpoly/polynomial_gcd.cc | 4 ++--
 clpoly/polynomial_gcd.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/clpoly/polynomial_gcd.cc b/clpoly/polynomial_gcd.cc
index 43f1ed6..e976d3f 100644
--- a/clpoly/polynomial_gcd.cc
+++ b/clpoly/polynomial_gcd.cc
@@ -265,7 +265,7 @@ namespace clpoly{
                         }
                         else
                         {
-                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                            tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                             
                         }
                         ++Pm_ptr;
@@ -279,7 +279,7 @@ namespace clpoly{
                 }
                 while (Pm_ptr!=Pm_end)
                 {
-                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                    tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                     ++Pm_ptr;
                 }
                 Pout_prime*=prime;
diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 0f6eacb..1c2bb3b 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -387,7 +387,7 @@ namespace clpoly{
                         }
                         else
                         {
-                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                            tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                             
                         }
                         ++Pm_ptr;
@@ -401,7 +401,7 @@ namespace clpoly{
                 }
                 while (Pm_ptr!=Pm_end)
                 {
-                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                    tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                     ++Pm_ptr;
                 }
                 Pout_prime*=prime; 
-- 
2.43.0


From 5301549a34810ce570d3f2bc98066cca3cddb571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 15/29] fix: gcd keeps its residues after a failed trial
 division

---
 clpoly/polynomial_gcd.cc | 3 ++-
 clpoly/polynomial_gcd.hh | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial_gcd.cc b/clpoly/polynomial_gcd.cc
index e976d3f..ce792f0 100644
--- a/clpoly/polynomial_gcd.cc
+++ b/clpoly/polynomial_gcd.cc
@@ -324,7 +324,8 @@ namespace clpoly{
                         return {{0,cont_gcd}};
                     }
                 }
-                std::swap(tmp_Pout_.data(),Pout_.data());
+                else // (after a failed trial division Pout_ keeps the residues)
+                    std::swap(tmp_Pout_.data(),Pout_.data());
                        
             }
             prime = prev_prime_64(prime);
diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 1c2bb3b..451d262 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -445,7 +445,8 @@ namespace clpoly{
                         return cont_gcd;
                     }
                 }
-                swap(tmp_Pout_.data(),Pout_.data());
+                else // (after a failed trial division Pout_ keeps the residues)
+                    swap(tmp_Pout_.data(),Pout_.data());
                        
             }
             prime = prev_prime_64(prime);
-- 
2.43.0


From 24b9d0409c5b5810df3851662ca8be3d1522e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 16/29] fix: multivariate gcd over Z/p gives up on an unlucky
 prime

When every evaluation point gives a gcd image of higher degree than the
bound from an earlier prime, the point loop ran over all 2^64 points.
---
 clpoly/polynomial_gcd.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 451d262..e076b3f 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -886,6 +886,9 @@ namespace clpoly{
                 v=comp(flvd.first,glvd.first)?glvd.first:flvd.first;
                 v_d=1;
             }
+            // 次数过高的点是一个非零结式系数的根；多于其次数时 deg 不可达（坏素数）
+            int64_t high_s=0;
+            int64_t max_high_s=(flvd.first==v?flvd.second:0)*g_d+(glvd.first==v?glvd.second:0)*f_d;
             std::vector<std::pair<basic_monomial<lex_<var_order>>,std::vector<Zp>>> _Pout,tmp_Pout;
             std::vector<Zp> points;
             std::vector<Zp> tmp_p;
@@ -917,6 +920,8 @@ namespace clpoly{
                 if (get_first_deg(F_v)==f_d && get_first_var(F_v)==fvf && get_first_deg(G_v)==g_d && get_first_var(G_v)==gvf )
                 {
                     deg_=__polynomial_GCD(Pout_,F_v,G_v,lc_v,deg);
+                    if (deg_==-1 && ++high_s>max_high_s)
+                        return -1;
                     //std::cout<<"v:"<<v<<" deg:"<<deg_<<" GDD:"<<Pout_<<std::endl;
                     if (deg_!=-1 && deg_<=deg)
                     {
-- 
2.43.0


From dbb90bac98a0bd88d257cac049728d8803b46a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 17/29] fix: reading a rational with zero denominator is
 reported

---
 clpoly/number/QQ.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/clpoly/number/QQ.hh b/clpoly/number/QQ.hh
index e636b15..e532d19 100644
--- a/clpoly/number/QQ.hh
+++ b/clpoly/number/QQ.hh
@@ -166,9 +166,7 @@ public:
             q._num = ZZ(s);
             q._den = ZZ(1);
         } else {
-            q._num = ZZ(s.substr(0, pos));
-            q._den = ZZ(s.substr(pos + 1));
-            q._canonicalize();
+            q = QQ(ZZ(s.substr(0, pos)), ZZ(s.substr(pos + 1)));
         }
         return is;
     }
-- 
2.43.0


From b425319e8c875badbd49ce4358be0704395a1f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 18/29] fix: packed univariate division keeps quotient
 exponents of 2^31 and above

---
 clpoly/monomial_order.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index d7b6da2..a1bed76 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -291,6 +291,7 @@ namespace clpoly{
     template<class var_comp>
     inline uint64_t __monomial_compression_div_mold(const grlex_<var_comp>* m,size_t vars_size)
     {
+        if (vars_size<=1) return uint64_t(1)<<63;   // a single variable is packed as its degree
         unsigned int l=64/(vars_size+1);
         uint64_t mold=0;
         for (unsigned int i=0;i<=vars_size;++i)
-- 
2.43.0


From 7fede858205f38b7476382c30ed258315d1baad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:51 +0000
Subject: [PATCH 19/29] fix: uspensky on one polynomial reports the root at
 zero

---
 clpoly/realroot.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clpoly/realroot.cc b/clpoly/realroot.cc
index 538fd7f..6f87b3e 100644
--- a/clpoly/realroot.cc
+++ b/clpoly/realroot.cc
@@ -145,9 +145,11 @@ namespace clpoly{
         // std::cout<<B<<std::endl;
         subuspensky(_upolynomial_Bto1(G,-B),l1,0,B);
         subuspensky(_upolynomial_Bto1(G,B),l2,0,B);
-        l.reserve(l1.size()+l2.size());
+        l.reserve(l1.size()+l2.size()+1);
         for (auto i=l1.rbegin();i!=l1.rend();++i)
             l.push_back({-i->second,-i->first});
+        if (!assign<QQ,ZZ,QQ>(G,0))
+            l.push_back({0,0});
         for (auto &i:l2)
             l.push_back(i);
         
-- 
2.43.0


From d8e1e5e4b879ac0a3a6845f3160289bfd5a541bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 20/29] fix: comparing real roots decides by both interval ends
 after bisection

---
 clpoly/realroot.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/realroot.cc b/clpoly/realroot.cc
index 6f87b3e..760806b 100644
--- a/clpoly/realroot.cc
+++ b/clpoly/realroot.cc
@@ -694,7 +694,7 @@ namespace clpoly{
             _uroot_check(r1,(r1->left()+r1->right())/2);
             _uroot_check(r2,(r2->left()+r2->right())/2);
         }
-        if (r1->left()<=r2->left())
+        if (r1->left()<r2->left() || r1->right()<r2->right())
             return status;
         return -status;
     }
-- 
2.43.0


From 1838af011cbdad0a76ca236ad2132639432c7c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:47 +0000
Subject: [PATCH 21/29] fix: multivariate factorization never returned when
 leading coefficients of two factors exceed the lifting prime

The p-adic coefficient lifting can only correct terms below the leading
power of the main variable, so leading coefficients stayed reduced modulo
p; put the known exact leading coefficients in place first, and lift as
far as the coefficient bound asks instead of at most five times.
---
 clpoly/polynomial_factorize_wang.hh | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index 8c28278..25e82dd 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -1101,6 +1101,22 @@ namespace clpoly{
         if (M > ZZ(2) * B)
             return result;   // 单次约化足够
 
+        // C.2.1: p-adic MDP 的解满足 deg(σi,x1) < deg(F[i],x1)，无法修正首项系数，
+        // 故先把 result[i] 的首项系数换成已知的精确值 lc_targets[i]
+        for (int i = 0; i < r; i++)
+        {
+            if (result[i].empty()) continue;
+            Poly x1d(comp_ptr);
+            basic_monomial<lex_<var_order>> m_x1d(comp_ptr);
+            m_x1d.push_back({main_var, (int64_t)degree(result[i], main_var)});
+            m_x1d.normalization();
+            x1d.push_back({m_x1d, ZZ(1)});
+            Poly diff = lc_targets[i] - leadcoeff(result[i], main_var);
+            diff.normalization();
+            result[i] = result[i] + diff * x1d;
+            result[i].normalization();
+        }
+
         // C.3: p-adic MDP 使用完整多变量 F（MTSHL-d 结果）作为余因子
         // 注意：不能使用单变量 F_base，因为 p-adic MDP 的余因子 ∏_{j≠i} F[j]
         // 是多变量的。__mtshl_sparse_int 会在 θ-array 点求值 F[i]，每个点得到
@@ -1113,10 +1129,7 @@ namespace clpoly{
                 forms[i].push_back(term.first);
 
         // C.4: p-adic 提升循环
-        // 63-bit 素数: l_max=5 → 可恢复 ~(2^63)^5 ≈ 10^95 范围的系数
-        constexpr int l_max = 5;
-
-        for (int l = 1; l < l_max && M <= ZZ(2) * B; l++)
+        while (M <= ZZ(2) * B)
         {
             // C.4.1: 计算 Z 上精确误差
             Poly product = result[0];
-- 
2.43.0


From 038a2aae570ed747b3ce47a2c46c0b0b9cc9bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:31 +0000
Subject: [PATCH 22/29] fix: subresultant chain lost S_1 below a degree gap

When the remainder sequence jumps to degree 1, S_1 was not computed and
the list returned an empty or stale polynomial in its place.
---
 clpoly/resultant.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clpoly/resultant.hh b/clpoly/resultant.hh
index f9b9dd3..af12120 100644
--- a/clpoly/resultant.hh
+++ b/clpoly/resultant.hh
@@ -358,7 +358,7 @@ namespace clpoly{
             if (r<j)
             {
                 
-                if (r!=1)
+                if (r!=1 || is_list)
                 {
                     leadcoeff(R_,S_j);
                     if (j-r<2)
@@ -426,7 +426,7 @@ namespace clpoly{
                 //std::cout<<"R_j"<<":"<<tmp1<<std::endl;
                 leadcoeff(R_,S_j_1);
                 //std::cout<<"R_j+1"<<":"<<R_<<std::endl;
-                if (r!=1)
+                if (r!=1 || is_list)
                 {
                     leadcoeff(tmp1,S_j);
                     if (j-r<2)
-- 
2.43.0


From 5ee1cdf5f81b9fe9aa2f634e9718ea60a64b6fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:31 +0000
Subject: [PATCH 23/29] fix: charset and Wucharset on systems containing the
 zero polynomial

The zero polynomial is reduced with respect to itself, so the basic set
grew without end; a zero equation carries no condition and is skipped.
---
 clpoly/charset.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clpoly/charset.hh b/clpoly/charset.hh
index add38c1..e81abbf 100644
--- a/clpoly/charset.hh
+++ b/clpoly/charset.hh
@@ -102,7 +102,10 @@ namespace clpoly{
     {
         if(P.size()==0) return P;
         std::vector<polynomial_<Tc,lex_<custom_var_order>>> R,C;
-        std::set<polynomial_<Tc,lex_<custom_var_order>>> F(P.begin(),P.end());
+        std::set<polynomial_<Tc,lex_<custom_var_order>>> F;
+        for(auto &p:P)
+            if(!p.empty()) F.insert(p);
+        if(F.empty()) return C;
         while(true)
         {
             R.clear();
@@ -471,7 +474,7 @@ namespace clpoly{
             //std::cout<<"C="<<i<<std::endl;
         }
         
-        if(is_number(C[0])) return T;
+        if(!C.empty() && is_number(C[0])) return T;
 
         T.push_back(C);
         for(auto f:C)
-- 
2.43.0


From 747929e66d1ff4b5162c1a0be0adef41a69e7753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:45 +0000
Subject: [PATCH 24/29] fix: compute integer S-polynomials and normal forms
 over the rationals

Dividing integer coefficients term by term truncated, so s_polynomial,
normal_form and Ideal<ZZ>::contains gave wrong answers over ZZ.
---
 clpoly/groebner.hh | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/clpoly/groebner.hh b/clpoly/groebner.hh
index a10e36a..ad9b0bf 100644
--- a/clpoly/groebner.hh
+++ b/clpoly/groebner.hh
@@ -166,6 +166,40 @@ namespace clpoly {
         return __normal_form(f, G);
     }
 
+    // ZZ 版本：整数系数不能逐次整除，在 QQ 上计算后清分母，
+    // 结果与 QQ 上的结果相差一个正整数因子
+    template<class comp>
+    inline polynomial_<QQ, comp> __groebner_to_QQ(const polynomial_<ZZ, comp>& f)
+    {
+        polynomial_<QQ, comp> fq(f.comp_ptr());
+        poly_convert(f, fq);
+        return fq;
+    }
+
+    template<class comp>
+    inline polynomial_<ZZ, comp> s_polynomial(
+        const polynomial_<ZZ, comp>& f,
+        const polynomial_<ZZ, comp>& g)
+    {
+        polynomial_<ZZ, comp> S(f.comp_ptr());
+        poly_convert(__s_polynomial(__groebner_to_QQ(f), __groebner_to_QQ(g)), S);
+        return S;
+    }
+
+    template<class comp>
+    inline polynomial_<ZZ, comp> normal_form(
+        const polynomial_<ZZ, comp>& f,
+        const std::vector<polynomial_<ZZ, comp>>& G)
+    {
+        std::vector<polynomial_<QQ, comp>> G_qq;
+        G_qq.reserve(G.size());
+        for (auto& g : G)
+            G_qq.push_back(__groebner_to_QQ(g));
+        polynomial_<ZZ, comp> r(f.comp_ptr());
+        poly_convert(__normal_form(__groebner_to_QQ(f), G_qq), r);
+        return r;
+    }
+
     // ===== 辅助: 首一化（逐系数除以 LC） =====
 
     template<class Tc, class comp>
-- 
2.43.0


From 52250a81e407231a3d982204f4fbb4d6cc2c07d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:45 +0000
Subject: [PATCH 25/29] fix: a connected branch contains the node it starts
 from

An isolated node gave an empty component.
---
 clpoly/associatedgraph.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.cc b/clpoly/associatedgraph.cc
index 317ba33..16b92d0 100644
--- a/clpoly/associatedgraph.cc
+++ b/clpoly/associatedgraph.cc
@@ -164,7 +164,8 @@ namespace clpoly{
         for (uint64_t i=0;i<g.size();++i)
             if (l2[i])
             {
-                l1.push_back({});
+                l1.push_back({i});
+                l2[i]=false;
                 _connected_branch_(i,l1.size()-1,g,l1,l2);
             }
         return l1;
-- 
2.43.0


From 9fbfff15aa77722b7ec5559ee42e7d4e751c723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:45 +0000
Subject: [PATCH 26/29] fix: graph_diff_score counts the nodes of both graphs

The union only ranged over the nodes of the first graph.
---
 clpoly/associatedgraph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index 04ca071..fae0ad7 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -241,7 +241,7 @@ namespace clpoly{
         std::set<node_type> nodes;
         for (auto &i:g1.nodes())
             nodes.insert(i);
-        for (auto &j:g1.nodes())
+        for (auto &j:g2.nodes())
             nodes.insert(j);
         std::set<node_type> neighbor;
         double union_=0;
-- 
2.43.0


From 01529f9c7dcd0629ba4372e224aa525fa2a7adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:45 +0000
Subject: [PATCH 27/29] fix: graph::add_node uses the node as key before moving
 it

Nodes of types with a real move (e.g. std::string) were filed under a
moved-from key.
---
 clpoly/associatedgraph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index fae0ad7..17d3374 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -64,8 +64,8 @@ namespace clpoly{
                 auto search=this->__mnode.find(c);
                 if (search==this->__mnode.end())
                 {
+                    this->__mnode[c]=this->__nodes.size();
                     this->__nodes.push_back(std::move(c));
-                    this->__mnode[c]=this->__nodes.size()-1;
                     this->__adjacency_list.push_back({});
                 }
             }
-- 
2.43.0


From 4aa8f7c0419af45084e9df38a9f91c8b45579e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:45 +0000
Subject: [PATCH 28/29] fix: random_select draws indices of full width

The int distribution truncated (or never terminated) for more than 2^31
candidates.
---
 clpoly/random.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/random.hh b/clpoly/random.hh
index e6fa6b1..6441d40 100644
--- a/clpoly/random.hh
+++ b/clpoly/random.hh
@@ -100,7 +100,7 @@ namespace clpoly{
         std::random_device rd; 
         std::mt19937 gen(rd());
         size_t tmp=no_repeat?m-n:m-1;
-        std::uniform_int_distribution<> dis(0, tmp);
+        std::uniform_int_distribution<size_t> dis(0, tmp);
         for (size_t i=0;i!=n;++i)
         {
             v.push_back(dis(gen));
-- 
2.43.0


From 02ee4b6aa23410f58d2a647639a1a49c314782fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:45 +0000
Subject: [PATCH 29/29] fix: RandomSample draws among all remaining entries

It only ever returned the first n entries.
---
 clpoly/random.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clpoly/random.hh b/clpoly/random.hh
index 6441d40..4b57427 100644
--- a/clpoly/random.hh
+++ b/clpoly/random.hh
@@ -271,14 +271,15 @@ namespace clpoly{
         uint64_t select;
         for (uint64_t i=size;i>0;--i)
             bl.push_back(true);
-        for (uint64_t i=std::min<uint64_t>(n,size);i>0;--i)
+        uint64_t left=size;
+        for (uint64_t i=std::min<uint64_t>(n,size);i>0;--i,--left)
         {
-            if (i==1)
+            if (left==1)
             {
                 select = 1;
             }
             else{
-                std::uniform_int_distribution<uint64_t> dis(1, i);
+                std::uniform_int_distribution<uint64_t> dis(1, left);
                 select=dis(gen);
             }
             for (uint64_t j=0;j<size;++j)
-- 
2.43.0

