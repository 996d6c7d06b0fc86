From 21c09add7a73d6a624bdb344bd9a31dbf3454f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 01/48] fix: report exactly the exceptions of a BID operation
 in the floating-point environment

libbid records exceptions in a thread-local word, tests them there and at
times takes them back.  The code that forwarded them to the environment lost
all but the last of several flags, never saw the many direct updates of the
word, kept retracted ones, mistook stale ones for exceptions of the current
operation, and let the inexact flag of internal binary arithmetic through.
---
 libbid/_addsub_dd.c          |  2 ++
 libbid/_addsub_sd.c          |  2 ++
 libbid/_addsub_td.c          |  2 ++
 libbid/_dd_to_df.c           |  1 +
 libbid/_dd_to_di.c           |  1 +
 libbid/_dd_to_hf.c           |  1 +
 libbid/_dd_to_sd.c           |  1 +
 libbid/_dd_to_sf.c           |  1 +
 libbid/_dd_to_si.c           |  1 +
 libbid/_dd_to_td.c           |  1 +
 libbid/_dd_to_tf.c           |  1 +
 libbid/_dd_to_udi.c          |  1 +
 libbid/_dd_to_usi.c          |  1 +
 libbid/_dd_to_xf.c           |  1 +
 libbid/_df_to_dd.c           |  1 +
 libbid/_df_to_sd.c           |  1 +
 libbid/_df_to_td.c           |  1 +
 libbid/_di_to_dd.c           |  1 +
 libbid/_di_to_sd.c           |  1 +
 libbid/_di_to_td.c           |  1 +
 libbid/_div_dd.c             |  1 +
 libbid/_div_sd.c             |  1 +
 libbid/_div_td.c             |  1 +
 libbid/_eq_dd.c              |  1 +
 libbid/_eq_sd.c              |  1 +
 libbid/_eq_td.c              |  1 +
 libbid/_ge_dd.c              |  1 +
 libbid/_ge_sd.c              |  1 +
 libbid/_ge_td.c              |  1 +
 libbid/_gt_dd.c              |  1 +
 libbid/_gt_sd.c              |  1 +
 libbid/_gt_td.c              |  1 +
 libbid/_hf_to_dd.c           |  1 +
 libbid/_hf_to_sd.c           |  1 +
 libbid/_hf_to_td.c           |  1 +
 libbid/_le_dd.c              |  1 +
 libbid/_le_sd.c              |  1 +
 libbid/_le_td.c              |  1 +
 libbid/_lt_dd.c              |  1 +
 libbid/_lt_sd.c              |  1 +
 libbid/_lt_td.c              |  1 +
 libbid/_mul_dd.c             |  1 +
 libbid/_mul_sd.c             |  1 +
 libbid/_mul_td.c             |  1 +
 libbid/_ne_dd.c              |  1 +
 libbid/_ne_sd.c              |  1 +
 libbid/_ne_td.c              |  1 +
 libbid/_sd_to_dd.c           |  1 +
 libbid/_sd_to_df.c           |  1 +
 libbid/_sd_to_di.c           |  1 +
 libbid/_sd_to_hf.c           |  1 +
 libbid/_sd_to_sf.c           |  1 +
 libbid/_sd_to_si.c           |  1 +
 libbid/_sd_to_td.c           |  1 +
 libbid/_sd_to_tf.c           |  1 +
 libbid/_sd_to_udi.c          |  1 +
 libbid/_sd_to_usi.c          |  1 +
 libbid/_sd_to_xf.c           |  1 +
 libbid/_sf_to_dd.c           |  1 +
 libbid/_sf_to_sd.c           |  1 +
 libbid/_sf_to_td.c           |  1 +
 libbid/_si_to_dd.c           |  1 +
 libbid/_si_to_sd.c           |  1 +
 libbid/_si_to_td.c           |  1 +
 libbid/_td_to_dd.c           |  1 +
 libbid/_td_to_df.c           |  1 +
 libbid/_td_to_di.c           |  1 +
 libbid/_td_to_hf.c           |  1 +
 libbid/_td_to_sd.c           |  1 +
 libbid/_td_to_sf.c           |  1 +
 libbid/_td_to_si.c           |  1 +
 libbid/_td_to_tf.c           |  1 +
 libbid/_td_to_udi.c          |  1 +
 libbid/_td_to_usi.c          |  1 +
 libbid/_td_to_xf.c           |  1 +
 libbid/_tf_to_dd.c           |  1 +
 libbid/_tf_to_sd.c           |  1 +
 libbid/_tf_to_td.c           |  1 +
 libbid/_udi_to_dd.c          |  1 +
 libbid/_udi_to_sd.c          |  1 +
 libbid/_udi_to_td.c          |  1 +
 libbid/_unord_dd.c           |  1 +
 libbid/_unord_sd.c           |  1 +
 libbid/_unord_td.c           |  1 +
 libbid/_usi_to_dd.c          |  1 +
 libbid/_usi_to_sd.c          |  1 +
 libbid/_usi_to_td.c          |  1 +
 libbid/_xf_to_dd.c           |  1 +
 libbid/_xf_to_sd.c           |  1 +
 libbid/_xf_to_td.c           |  1 +
 libbid/bid_conf.h            | 16 +++++++++++---
 libbid/bid_decimal_globals.c | 43 +++++++++++++++++++++++-------------
 92 files changed, 134 insertions(+), 18 deletions(-)

diff --git a/libbid/_addsub_dd.c b/libbid/_addsub_dd.c
index 668de0f..ff501cc 100644
--- a/libbid/_addsub_dd.c
+++ b/libbid/_addsub_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal64
 __bid_adddd3 (_Decimal64 x, _Decimal64 y) {
+  BID_OPERATION;
   union decimal64 ux, uy, res;
 
   ux.d = x;
@@ -37,6 +38,7 @@ __bid_adddd3 (_Decimal64 x, _Decimal64 y) {
 
 _Decimal64
 __bid_subdd3 (_Decimal64 x, _Decimal64 y) {
+  BID_OPERATION;
   union decimal64 ux, uy, res;
 
   ux.d = x;
diff --git a/libbid/_addsub_sd.c b/libbid/_addsub_sd.c
index d6027f4..4aa19fd 100644
--- a/libbid/_addsub_sd.c
+++ b/libbid/_addsub_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal32
 __bid_addsd3 (_Decimal32 x, _Decimal32 y) {
+  BID_OPERATION;
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
 
@@ -41,6 +42,7 @@ __bid_addsd3 (_Decimal32 x, _Decimal32 y) {
 
 _Decimal32
 __bid_subsd3 (_Decimal32 x, _Decimal32 y) {
+  BID_OPERATION;
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
 
diff --git a/libbid/_addsub_td.c b/libbid/_addsub_td.c
index b927f2f..e3d2868 100644
--- a/libbid/_addsub_td.c
+++ b/libbid/_addsub_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal128
 __bid_addtd3 (_Decimal128 x, _Decimal128 y) {
+  BID_OPERATION;
   union decimal128 ux, uy, res;
 
   ux.d = x;
@@ -37,6 +38,7 @@ __bid_addtd3 (_Decimal128 x, _Decimal128 y) {
 
 _Decimal128
 __bid_subtd3 (_Decimal128 x, _Decimal128 y) {
+  BID_OPERATION;
   union decimal128 ux, uy, res;
 
   ux.d = x;
diff --git a/libbid/_dd_to_df.c b/libbid/_dd_to_df.c
index f81f7dc..be34d71 100644
--- a/libbid/_dd_to_df.c
+++ b/libbid/_dd_to_df.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 DFtype
 __bid_truncdddf (_Decimal64 x) {
+  BID_OPERATION;
   DFtype res;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_di.c b/libbid/_dd_to_di.c
index 4ab7cd2..99fa2fa 100644
--- a/libbid/_dd_to_di.c
+++ b/libbid/_dd_to_di.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 DItype
 __bid_fixdddi (_Decimal64 x) {
+  BID_OPERATION;
   DItype res = 0xbaddbaddbaddbaddull;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_hf.c b/libbid/_dd_to_hf.c
index 5bd680d..98fb47d 100644
--- a/libbid/_dd_to_hf.c
+++ b/libbid/_dd_to_hf.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_HF_MODE || BID_HAS_HF_MODE
 HFtype
 __bid_truncddhf (_Decimal64 x) {
+  BID_OPERATION;
   HFtype res;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_sd.c b/libbid/_dd_to_sd.c
index 554e75f..f616b20 100644
--- a/libbid/_dd_to_sd.c
+++ b/libbid/_dd_to_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
  
 _Decimal32
 __bid_truncddsd2 (_Decimal64 x) {
+  BID_OPERATION;
   union decimal32 res;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_sf.c b/libbid/_dd_to_sf.c
index e69d7f3..328341a 100644
--- a/libbid/_dd_to_sf.c
+++ b/libbid/_dd_to_sf.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 SFtype
 __bid_truncddsf (_Decimal64 x) {
+  BID_OPERATION;
   SFtype res;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_si.c b/libbid/_dd_to_si.c
index e737059..6d5868d 100644
--- a/libbid/_dd_to_si.c
+++ b/libbid/_dd_to_si.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 SItype
 __bid_fixddsi (_Decimal64 x) {
+  BID_OPERATION;
   SItype res = 0xbaddbadd;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_td.c b/libbid/_dd_to_td.c
index 0c22fc8..f5564b0 100644
--- a/libbid/_dd_to_td.c
+++ b/libbid/_dd_to_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
  
 _Decimal128
 __bid_extendddtd2 (_Decimal64 x) {
+  BID_OPERATION;
   union decimal128 res;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_tf.c b/libbid/_dd_to_tf.c
index c8a1d4c..c57fb47 100644
--- a/libbid/_dd_to_tf.c
+++ b/libbid/_dd_to_tf.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_TF_MODE || BID_HAS_TF_MODE
 TFtype
 __bid_extendddtf (_Decimal64 x) {
+  BID_OPERATION;
   union float128 res;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_udi.c b/libbid/_dd_to_udi.c
index 588a4d3..43d4722 100644
--- a/libbid/_dd_to_udi.c
+++ b/libbid/_dd_to_udi.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 UDItype
 __bid_fixunsdddi (_Decimal64 x) {
+  BID_OPERATION;
   UDItype res = 0xbaddbaddbaddbaddull;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_usi.c b/libbid/_dd_to_usi.c
index 626f9eb..8dad180 100644
--- a/libbid/_dd_to_usi.c
+++ b/libbid/_dd_to_usi.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 USItype
 __bid_fixunsddsi (_Decimal64 x) {
+  BID_OPERATION;
   USItype res = 0xbaddbadd;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_xf.c b/libbid/_dd_to_xf.c
index b1bb10e..68cfc6a 100644
--- a/libbid/_dd_to_xf.c
+++ b/libbid/_dd_to_xf.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #ifdef __LIBGCC_HAS_XF_MODE__
 XFtype
 __bid_extendddxf (_Decimal64 x) {
+  BID_OPERATION;
   XFtype res;
   union decimal64 ux;
 
diff --git a/libbid/_df_to_dd.c b/libbid/_df_to_dd.c
index fdc48b7..f9ba7a7 100644
--- a/libbid/_df_to_dd.c
+++ b/libbid/_df_to_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal64
 __bid_extenddfdd (DFtype x) {
+  BID_OPERATION;
   union decimal64 res;
   res.i = __binary64_to_bid64 (x);
   return (res.d);
diff --git a/libbid/_df_to_sd.c b/libbid/_df_to_sd.c
index 47004d3..15053fd 100644
--- a/libbid/_df_to_sd.c
+++ b/libbid/_df_to_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal32
 __bid_truncdfsd (DFtype x) {
+  BID_OPERATION;
   union decimal32 res;
 
   res.i = __binary64_to_bid32 (x);
diff --git a/libbid/_df_to_td.c b/libbid/_df_to_td.c
index 07fd41b..8c8b928 100644
--- a/libbid/_df_to_td.c
+++ b/libbid/_df_to_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal128
 __bid_extenddftd (DFtype x) {
+  BID_OPERATION;
   union decimal128 res;
   res.i = __binary64_to_bid128 (x);
   return (res.d);
diff --git a/libbid/_di_to_dd.c b/libbid/_di_to_dd.c
index f6c345c..d0c7dc7 100644
--- a/libbid/_di_to_dd.c
+++ b/libbid/_di_to_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal64
 __bid_floatdidd (DItype x) {
+  BID_OPERATION;
   union decimal64 res;
 
   res.i = __bid64_from_int64 (x);
diff --git a/libbid/_di_to_sd.c b/libbid/_di_to_sd.c
index fd2b9fd..bd42126 100644
--- a/libbid/_di_to_sd.c
+++ b/libbid/_di_to_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal32
 __bid_floatdisd (DItype x) {
+  BID_OPERATION;
   union decimal32 res;
   UINT64 res64;
 
diff --git a/libbid/_di_to_td.c b/libbid/_di_to_td.c
index 91307b6..acdce3f 100644
--- a/libbid/_di_to_td.c
+++ b/libbid/_di_to_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal128
 __bid_floatditd (DItype x) {
+  BID_OPERATION;
   union decimal128 res;
 
   res.i = __bid128_from_int64 (x);
diff --git a/libbid/_div_dd.c b/libbid/_div_dd.c
index 47dcfe3..1c8bf81 100644
--- a/libbid/_div_dd.c
+++ b/libbid/_div_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal64
 __bid_divdd3 (_Decimal64 x, _Decimal64 y) {
+  BID_OPERATION;
   union decimal64 ux, uy, res;
 
   ux.d = x;
diff --git a/libbid/_div_sd.c b/libbid/_div_sd.c
index bb05b8f..40c1ac7 100644
--- a/libbid/_div_sd.c
+++ b/libbid/_div_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal32
 __bid_divsd3 (_Decimal32 x, _Decimal32 y) {
+  BID_OPERATION;
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
 
diff --git a/libbid/_div_td.c b/libbid/_div_td.c
index 97e15f6..aeb7af7 100644
--- a/libbid/_div_td.c
+++ b/libbid/_div_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal128
 __bid_divtd3 (_Decimal128 x, _Decimal128 y) {
+  BID_OPERATION;
   union decimal128 ux, uy, res;
 
   ux.d = x;
diff --git a/libbid/_eq_dd.c b/libbid/_eq_dd.c
index 5ae0a68..0b0ce60 100644
--- a/libbid/_eq_dd.c
+++ b/libbid/_eq_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_eqdd2 (_Decimal64 x, _Decimal64 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal64 ux, uy;
  
diff --git a/libbid/_eq_sd.c b/libbid/_eq_sd.c
index 0093527..0b2eaed 100644
--- a/libbid/_eq_sd.c
+++ b/libbid/_eq_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_eqsd2 (_Decimal32 x, _Decimal32 y) {
+  BID_OPERATION;
   CMPtype res;
   UINT64 x64, y64;
   union decimal32 ux, uy;
diff --git a/libbid/_eq_td.c b/libbid/_eq_td.c
index d7db33c..edb7a0f 100644
--- a/libbid/_eq_td.c
+++ b/libbid/_eq_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_eqtd2 (_Decimal128 x, _Decimal128 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal128 ux, uy;
  
diff --git a/libbid/_ge_dd.c b/libbid/_ge_dd.c
index 1ce3402..28fe10b 100644
--- a/libbid/_ge_dd.c
+++ b/libbid/_ge_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_gedd2 (_Decimal64 x, _Decimal64 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal64 ux, uy;
  
diff --git a/libbid/_ge_sd.c b/libbid/_ge_sd.c
index 3998ce3..54c1e39 100644
--- a/libbid/_ge_sd.c
+++ b/libbid/_ge_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_gesd2 (_Decimal32 x, _Decimal32 y) {
+  BID_OPERATION;
   CMPtype res;
   UINT64 x64, y64;
   union decimal32 ux, uy;
diff --git a/libbid/_ge_td.c b/libbid/_ge_td.c
index fc22b2a..c235bdd 100644
--- a/libbid/_ge_td.c
+++ b/libbid/_ge_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_getd2 (_Decimal128 x, _Decimal128 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal128 ux, uy;
  
diff --git a/libbid/_gt_dd.c b/libbid/_gt_dd.c
index 97a1897..5608b38 100644
--- a/libbid/_gt_dd.c
+++ b/libbid/_gt_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_gtdd2 (_Decimal64 x, _Decimal64 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal64 ux, uy;
  
diff --git a/libbid/_gt_sd.c b/libbid/_gt_sd.c
index 057cce2..f66e851 100644
--- a/libbid/_gt_sd.c
+++ b/libbid/_gt_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_gtsd2 (_Decimal32 x, _Decimal32 y) {
+  BID_OPERATION;
   CMPtype res;
   UINT64 x64, y64;
   union decimal32 ux, uy;
diff --git a/libbid/_gt_td.c b/libbid/_gt_td.c
index 0d17123..6c110f9 100644
--- a/libbid/_gt_td.c
+++ b/libbid/_gt_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_gttd2 (_Decimal128 x, _Decimal128 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal128 ux, uy;
  
diff --git a/libbid/_hf_to_dd.c b/libbid/_hf_to_dd.c
index 2689942..898b013 100644
--- a/libbid/_hf_to_dd.c
+++ b/libbid/_hf_to_dd.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_HF_MODE || BID_HAS_HF_MODE
 _Decimal64
 __bid_extendhfdd (HFtype x) {
+  BID_OPERATION;
   union decimal64 res;
   SFtype xsf = x;
   res.i = __binary32_to_bid64 (xsf);
diff --git a/libbid/_hf_to_sd.c b/libbid/_hf_to_sd.c
index 7d0c914..548fb23 100644
--- a/libbid/_hf_to_sd.c
+++ b/libbid/_hf_to_sd.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_HF_MODE || BID_HAS_HF_MODE
 _Decimal32
 __bid_extendhfsd (HFtype x) {
+  BID_OPERATION;
   union decimal32 res;
   SFtype xsf = x;
   res.i = __binary32_to_bid32 (xsf);
diff --git a/libbid/_hf_to_td.c b/libbid/_hf_to_td.c
index 429ec05..da094fb 100644
--- a/libbid/_hf_to_td.c
+++ b/libbid/_hf_to_td.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_HF_MODE || BID_HAS_HF_MODE
 _Decimal128
 __bid_extendhftd (HFtype x) {
+  BID_OPERATION;
   union decimal128 res;
   SFtype xsf = x;
   res.i = __binary32_to_bid128 (xsf);
diff --git a/libbid/_le_dd.c b/libbid/_le_dd.c
index aee7d57..4caa166 100644
--- a/libbid/_le_dd.c
+++ b/libbid/_le_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_ledd2 (_Decimal64 x, _Decimal64 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal64 ux, uy;
  
diff --git a/libbid/_le_sd.c b/libbid/_le_sd.c
index a64e0d7..8ffc99b 100644
--- a/libbid/_le_sd.c
+++ b/libbid/_le_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_lesd2 (_Decimal32 x, _Decimal32 y) {
+  BID_OPERATION;
   CMPtype res;
   UINT64 x64, y64;
   union decimal32 ux, uy;
diff --git a/libbid/_le_td.c b/libbid/_le_td.c
index 6933a1e..7d0c9d3 100644
--- a/libbid/_le_td.c
+++ b/libbid/_le_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_letd2 (_Decimal128 x, _Decimal128 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal128 ux, uy;
  
diff --git a/libbid/_lt_dd.c b/libbid/_lt_dd.c
index 49ef1a1..fa4aa1e 100644
--- a/libbid/_lt_dd.c
+++ b/libbid/_lt_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_ltdd2 (_Decimal64 x, _Decimal64 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal64 ux, uy;
  
diff --git a/libbid/_lt_sd.c b/libbid/_lt_sd.c
index f8b7d14..e40400a 100644
--- a/libbid/_lt_sd.c
+++ b/libbid/_lt_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_ltsd2 (_Decimal32 x, _Decimal32 y) {
+  BID_OPERATION;
   CMPtype res;
   UINT64 x64, y64;
   union decimal32 ux, uy;
diff --git a/libbid/_lt_td.c b/libbid/_lt_td.c
index 759bb98..17badac 100644
--- a/libbid/_lt_td.c
+++ b/libbid/_lt_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_lttd2 (_Decimal128 x, _Decimal128 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal128 ux, uy;
  
diff --git a/libbid/_mul_dd.c b/libbid/_mul_dd.c
index a4107eb..e69ae36 100644
--- a/libbid/_mul_dd.c
+++ b/libbid/_mul_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal64
 __bid_muldd3 (_Decimal64 x, _Decimal64 y) {
+  BID_OPERATION;
   union decimal64 ux, uy, res;
  
   ux.d = x;
diff --git a/libbid/_mul_sd.c b/libbid/_mul_sd.c
index 3db444d..5851ea6 100644
--- a/libbid/_mul_sd.c
+++ b/libbid/_mul_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal32
 __bid_mulsd3 (_Decimal32 x, _Decimal32 y) {
+  BID_OPERATION;
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
  
diff --git a/libbid/_mul_td.c b/libbid/_mul_td.c
index 619285e..45623f8 100644
--- a/libbid/_mul_td.c
+++ b/libbid/_mul_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal128
 __bid_multd3 (_Decimal128 x, _Decimal128 y) {
+  BID_OPERATION;
   union decimal128 ux, uy, res;
 
   ux.d = x;
diff --git a/libbid/_ne_dd.c b/libbid/_ne_dd.c
index 70aba21..5587290 100644
--- a/libbid/_ne_dd.c
+++ b/libbid/_ne_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_nedd2 (_Decimal64 x, _Decimal64 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal64 ux, uy;
  
diff --git a/libbid/_ne_sd.c b/libbid/_ne_sd.c
index e1b17c2..6b61ff8 100644
--- a/libbid/_ne_sd.c
+++ b/libbid/_ne_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_nesd2 (_Decimal32 x, _Decimal32 y) {
+  BID_OPERATION;
   CMPtype res;
   UINT64 x64, y64;
   union decimal32 ux, uy;
diff --git a/libbid/_ne_td.c b/libbid/_ne_td.c
index d3c4269..e3a506f 100644
--- a/libbid/_ne_td.c
+++ b/libbid/_ne_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_netd2 (_Decimal128 x, _Decimal128 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal128 ux, uy;
  
diff --git a/libbid/_sd_to_dd.c b/libbid/_sd_to_dd.c
index b97ca52..244438d 100644
--- a/libbid/_sd_to_dd.c
+++ b/libbid/_sd_to_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
  
 _Decimal64
 __bid_extendsddd2 (_Decimal32 x) {
+  BID_OPERATION;
   union decimal64 res;
   union decimal32 ux;
 
diff --git a/libbid/_sd_to_df.c b/libbid/_sd_to_df.c
index abcf0a4..0969498 100644
--- a/libbid/_sd_to_df.c
+++ b/libbid/_sd_to_df.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 DFtype
 __bid_extendsddf (_Decimal32 x) {
+  BID_OPERATION;
   DFtype res;
   union decimal32 ux;
 
diff --git a/libbid/_sd_to_di.c b/libbid/_sd_to_di.c
index e1ba302..d0f552b 100644
--- a/libbid/_sd_to_di.c
+++ b/libbid/_sd_to_di.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 DItype
 __bid_fixsddi (_Decimal32 x) {
+  BID_OPERATION;
   DItype res = 0xbaddbaddbaddbaddull;
   UINT64 x64;
   union decimal32 ux;
diff --git a/libbid/_sd_to_hf.c b/libbid/_sd_to_hf.c
index d899c03..0b16efc 100644
--- a/libbid/_sd_to_hf.c
+++ b/libbid/_sd_to_hf.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_HF_MODE || BID_HAS_HF_MODE
 HFtype
 __bid_truncsdhf (_Decimal32 x) {
+  BID_OPERATION;
   HFtype res;
   union decimal32 ux;
 
diff --git a/libbid/_sd_to_sf.c b/libbid/_sd_to_sf.c
index eee513d..f9f2c09 100644
--- a/libbid/_sd_to_sf.c
+++ b/libbid/_sd_to_sf.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 SFtype
 __bid_truncsdsf (_Decimal32 x) {
+  BID_OPERATION;
   SFtype res;
   union decimal32 ux;
 
diff --git a/libbid/_sd_to_si.c b/libbid/_sd_to_si.c
index ef712c7..d8403b9 100644
--- a/libbid/_sd_to_si.c
+++ b/libbid/_sd_to_si.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 SItype
 __bid_fixsdsi (_Decimal32 x) {
+  BID_OPERATION;
   SItype res = 0xbaddbadd;
   UINT64 x64;
   union decimal32 ux;
diff --git a/libbid/_sd_to_td.c b/libbid/_sd_to_td.c
index f78e22e..de83932 100644
--- a/libbid/_sd_to_td.c
+++ b/libbid/_sd_to_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
  
 _Decimal128
 __bid_extendsdtd2 (_Decimal32 x) {
+  BID_OPERATION;
   union decimal128 res;
   union decimal32 ux;
 
diff --git a/libbid/_sd_to_tf.c b/libbid/_sd_to_tf.c
index 7d8015f..1aaf780 100644
--- a/libbid/_sd_to_tf.c
+++ b/libbid/_sd_to_tf.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_TF_MODE || BID_HAS_TF_MODE
 TFtype
 __bid_extendsdtf (_Decimal32 x) {
+  BID_OPERATION;
   union float128 res;
   union decimal32 ux;
 
diff --git a/libbid/_sd_to_udi.c b/libbid/_sd_to_udi.c
index e061256..9c712aa 100644
--- a/libbid/_sd_to_udi.c
+++ b/libbid/_sd_to_udi.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 UDItype
 __bid_fixunssddi (_Decimal32 x) {
+  BID_OPERATION;
   UDItype res = 0xbaddbaddbaddbaddull;
   UINT64 x64;
   union decimal32 ux;
diff --git a/libbid/_sd_to_usi.c b/libbid/_sd_to_usi.c
index 8ab0f20..1f9fe92 100644
--- a/libbid/_sd_to_usi.c
+++ b/libbid/_sd_to_usi.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 USItype
 __bid_fixunssdsi (_Decimal32 x) {
+  BID_OPERATION;
   USItype res = 0xbaddbadd;
   UINT64 x64;
   union decimal32 ux;
diff --git a/libbid/_sd_to_xf.c b/libbid/_sd_to_xf.c
index bc7d45e..e8f1bc7 100644
--- a/libbid/_sd_to_xf.c
+++ b/libbid/_sd_to_xf.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #ifdef __LIBGCC_HAS_XF_MODE__
 XFtype
 __bid_extendsdxf (_Decimal32 x) {
+  BID_OPERATION;
   XFtype res;
   union decimal32 ux;
 
diff --git a/libbid/_sf_to_dd.c b/libbid/_sf_to_dd.c
index e4f406e..1e16ca3 100644
--- a/libbid/_sf_to_dd.c
+++ b/libbid/_sf_to_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal64
 __bid_extendsfdd (SFtype x) {
+  BID_OPERATION;
   union decimal64 res;
   res.i = __binary32_to_bid64 (x);
   return (res.d);
diff --git a/libbid/_sf_to_sd.c b/libbid/_sf_to_sd.c
index 639f8bb..a92f51c 100644
--- a/libbid/_sf_to_sd.c
+++ b/libbid/_sf_to_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal32
 __bid_extendsfsd (SFtype x) {
+  BID_OPERATION;
   union decimal32 res;
   res.i = __binary32_to_bid32 (x);
   return (res.d);
diff --git a/libbid/_sf_to_td.c b/libbid/_sf_to_td.c
index 30e2dc9..2e30cc1 100644
--- a/libbid/_sf_to_td.c
+++ b/libbid/_sf_to_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal128
 __bid_extendsftd (SFtype x) {
+  BID_OPERATION;
   union decimal128 res;
   res.i = __binary32_to_bid128 (x);
   return (res.d);
diff --git a/libbid/_si_to_dd.c b/libbid/_si_to_dd.c
index e9758d6..2e02483 100644
--- a/libbid/_si_to_dd.c
+++ b/libbid/_si_to_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal64
 __bid_floatsidd (SItype x) {
+  BID_OPERATION;
   union decimal64 res;
 
   res.i = __bid64_from_int32 (x);
diff --git a/libbid/_si_to_sd.c b/libbid/_si_to_sd.c
index 9d3bede..26c91d4 100644
--- a/libbid/_si_to_sd.c
+++ b/libbid/_si_to_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal32
 __bid_floatsisd (SItype x) {
+  BID_OPERATION;
   union decimal32 res;
   UINT64 res64;
 
diff --git a/libbid/_si_to_td.c b/libbid/_si_to_td.c
index c08b2f1..d01f4ee 100644
--- a/libbid/_si_to_td.c
+++ b/libbid/_si_to_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal128
 __bid_floatsitd (SItype x) {
+  BID_OPERATION;
   union decimal128 res;
 
   res.i = __bid128_from_int32 (x);
diff --git a/libbid/_td_to_dd.c b/libbid/_td_to_dd.c
index 6adf82b..5ac9cf6 100644
--- a/libbid/_td_to_dd.c
+++ b/libbid/_td_to_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
  
 _Decimal64
 __bid_trunctddd2 (_Decimal128 x) {
+  BID_OPERATION;
   union decimal128 ux;
   union decimal64 res;
 
diff --git a/libbid/_td_to_df.c b/libbid/_td_to_df.c
index b9dcfb5..01441ff 100644
--- a/libbid/_td_to_df.c
+++ b/libbid/_td_to_df.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 DFtype
 __bid_trunctddf (_Decimal128 x) {
+  BID_OPERATION;
   DFtype res;
   union decimal128 ux;
 
diff --git a/libbid/_td_to_di.c b/libbid/_td_to_di.c
index 90dd525..656cf4b 100644
--- a/libbid/_td_to_di.c
+++ b/libbid/_td_to_di.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 DItype
 __bid_fixtddi (_Decimal128 x) {
+  BID_OPERATION;
   DItype res = 0xbaddbaddbaddbaddull;
   union decimal128 ux;
 
diff --git a/libbid/_td_to_hf.c b/libbid/_td_to_hf.c
index f61aafc..08562e6 100644
--- a/libbid/_td_to_hf.c
+++ b/libbid/_td_to_hf.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_HF_MODE || BID_HAS_HF_MODE
 HFtype
 __bid_trunctdhf (_Decimal128 x) {
+  BID_OPERATION;
   HFtype res;
   union decimal128 ux;
 
diff --git a/libbid/_td_to_sd.c b/libbid/_td_to_sd.c
index 39c8f7c..c65f5e2 100644
--- a/libbid/_td_to_sd.c
+++ b/libbid/_td_to_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
  
 _Decimal32
 __bid_trunctdsd2 (_Decimal128 x) {
+  BID_OPERATION;
   union decimal128 ux;
   union decimal32 res;
 
diff --git a/libbid/_td_to_sf.c b/libbid/_td_to_sf.c
index 0acf779..699b13a 100644
--- a/libbid/_td_to_sf.c
+++ b/libbid/_td_to_sf.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 SFtype
 __bid_trunctdsf (_Decimal128 x) {
+  BID_OPERATION;
   SFtype res;
   union decimal128 ux;
 
diff --git a/libbid/_td_to_si.c b/libbid/_td_to_si.c
index 07b945c..7eaa2dc 100644
--- a/libbid/_td_to_si.c
+++ b/libbid/_td_to_si.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 SItype
 __bid_fixtdsi (_Decimal128 x) {
+  BID_OPERATION;
   union decimal128 ux;
   SItype res = 0xbaddbadd;
 
diff --git a/libbid/_td_to_tf.c b/libbid/_td_to_tf.c
index c8c0176..7c1809d 100644
--- a/libbid/_td_to_tf.c
+++ b/libbid/_td_to_tf.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_TF_MODE || BID_HAS_TF_MODE
 TFtype
 __bid_trunctdtf (_Decimal128 x) {
+  BID_OPERATION;
   union float128 res;
   union decimal128 ux;
 
diff --git a/libbid/_td_to_udi.c b/libbid/_td_to_udi.c
index 7e7b72a..cd20f76 100644
--- a/libbid/_td_to_udi.c
+++ b/libbid/_td_to_udi.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 UDItype
 __bid_fixunstddi (_Decimal128 x) {
+  BID_OPERATION;
   UDItype res = 0xbaddbaddbaddbaddull;
   union decimal128 ux;
 
diff --git a/libbid/_td_to_usi.c b/libbid/_td_to_usi.c
index 00406be..e26f74d 100644
--- a/libbid/_td_to_usi.c
+++ b/libbid/_td_to_usi.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 USItype
 __bid_fixunstdsi (_Decimal128 x) {
+  BID_OPERATION;
   USItype res = 0xbaddbadd;
   union decimal128 ux;
 
diff --git a/libbid/_td_to_xf.c b/libbid/_td_to_xf.c
index 69e9f2f..ebc9a42 100644
--- a/libbid/_td_to_xf.c
+++ b/libbid/_td_to_xf.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #ifdef __LIBGCC_HAS_XF_MODE__
 XFtype
 __bid_trunctdxf (_Decimal128 x) {
+  BID_OPERATION;
   XFtype res;
   union decimal128 ux;
 
diff --git a/libbid/_tf_to_dd.c b/libbid/_tf_to_dd.c
index d139e33..aa3fbdf 100644
--- a/libbid/_tf_to_dd.c
+++ b/libbid/_tf_to_dd.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_TF_MODE || BID_HAS_TF_MODE
 _Decimal64
 __bid_trunctfdd (TFtype x) {
+  BID_OPERATION;
   union decimal64 res;
   union float128 ux;
 
diff --git a/libbid/_tf_to_sd.c b/libbid/_tf_to_sd.c
index b7f7863..9a5ad69 100644
--- a/libbid/_tf_to_sd.c
+++ b/libbid/_tf_to_sd.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_TF_MODE || BID_HAS_TF_MODE
 _Decimal32
 __bid_trunctfsd (TFtype x) {
+  BID_OPERATION;
   union decimal32 res;
   union float128 ux;
 
diff --git a/libbid/_tf_to_td.c b/libbid/_tf_to_td.c
index 23af43b..54feb33 100644
--- a/libbid/_tf_to_td.c
+++ b/libbid/_tf_to_td.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_TF_MODE || BID_HAS_TF_MODE
 _Decimal128
 __bid_extendtftd (TFtype x) {
+  BID_OPERATION;
   union decimal128 res;
   union float128 ux;
 
diff --git a/libbid/_udi_to_dd.c b/libbid/_udi_to_dd.c
index 981a7d3..7b8a5ea 100644
--- a/libbid/_udi_to_dd.c
+++ b/libbid/_udi_to_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal64
 __bid_floatunsdidd (UDItype x) {
+  BID_OPERATION;
   union decimal64 res;
 
   res.i = __bid64_from_uint64 (x);
diff --git a/libbid/_udi_to_sd.c b/libbid/_udi_to_sd.c
index 62a1285..e23ad78 100644
--- a/libbid/_udi_to_sd.c
+++ b/libbid/_udi_to_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal32
 __bid_floatunsdisd (UDItype x) {
+  BID_OPERATION;
   union decimal32 res;
   UINT64 res64;
 
diff --git a/libbid/_udi_to_td.c b/libbid/_udi_to_td.c
index 2c73cf1..7e95190 100644
--- a/libbid/_udi_to_td.c
+++ b/libbid/_udi_to_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal128
 __bid_floatunsditd (UDItype x) {
+  BID_OPERATION;
   union decimal128 res;
 
   res.i = __bid128_from_uint64 (x);
diff --git a/libbid/_unord_dd.c b/libbid/_unord_dd.c
index 2f7fca1..8b1501d 100644
--- a/libbid/_unord_dd.c
+++ b/libbid/_unord_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_unorddd2 (_Decimal64 x, _Decimal64 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal64 ux, uy;
  
diff --git a/libbid/_unord_sd.c b/libbid/_unord_sd.c
index d718405..49fb24d 100644
--- a/libbid/_unord_sd.c
+++ b/libbid/_unord_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_unordsd2 (_Decimal32 x, _Decimal32 y) {
+  BID_OPERATION;
   CMPtype res;
   UINT64 x64, y64;
   union decimal32 ux, uy;
diff --git a/libbid/_unord_td.c b/libbid/_unord_td.c
index 1732592..f13e85d 100644
--- a/libbid/_unord_td.c
+++ b/libbid/_unord_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 CMPtype
 __bid_unordtd2 (_Decimal128 x, _Decimal128 y) {
+  BID_OPERATION;
   CMPtype res;
   union decimal128 ux, uy;
  
diff --git a/libbid/_usi_to_dd.c b/libbid/_usi_to_dd.c
index 6639d69..adf2af9 100644
--- a/libbid/_usi_to_dd.c
+++ b/libbid/_usi_to_dd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal64
 __bid_floatunssidd (USItype x) {
+  BID_OPERATION;
   union decimal64 res;
 
   res.i = __bid64_from_uint32 (x);
diff --git a/libbid/_usi_to_sd.c b/libbid/_usi_to_sd.c
index 9242518..9885cc2 100644
--- a/libbid/_usi_to_sd.c
+++ b/libbid/_usi_to_sd.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal32
 __bid_floatunssisd (USItype x) {
+  BID_OPERATION;
   union decimal32 res;
   UINT64 res64;
 
diff --git a/libbid/_usi_to_td.c b/libbid/_usi_to_td.c
index e969e62..65ebb22 100644
--- a/libbid/_usi_to_td.c
+++ b/libbid/_usi_to_td.c
@@ -27,6 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 _Decimal128
 __bid_floatunssitd (USItype x) {
+  BID_OPERATION;
   union decimal128 res;
 
   res.i = __bid128_from_uint32 (x);
diff --git a/libbid/_xf_to_dd.c b/libbid/_xf_to_dd.c
index 8ab1523..1bb2661 100644
--- a/libbid/_xf_to_dd.c
+++ b/libbid/_xf_to_dd.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #ifdef __LIBGCC_HAS_XF_MODE__
 _Decimal64
 __bid_truncxfdd (XFtype x) {
+  BID_OPERATION;
   union decimal64 res;
   res.i = __binary80_to_bid64 (x);
   return (res.d);
diff --git a/libbid/_xf_to_sd.c b/libbid/_xf_to_sd.c
index 4ca63db..a2dd21d 100644
--- a/libbid/_xf_to_sd.c
+++ b/libbid/_xf_to_sd.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #ifdef __LIBGCC_HAS_XF_MODE__
 _Decimal32
 __bid_truncxfsd (XFtype x) {
+  BID_OPERATION;
   union decimal32 res;
   res.i = __binary80_to_bid32 (x);
   return (res.d);
diff --git a/libbid/_xf_to_td.c b/libbid/_xf_to_td.c
index d06c7c4..5f18801 100644
--- a/libbid/_xf_to_td.c
+++ b/libbid/_xf_to_td.c
@@ -28,6 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #ifdef __LIBGCC_HAS_XF_MODE__
 _Decimal128
 __bid_extendxftd (XFtype x) {
+  BID_OPERATION;
   union decimal128 res;
   res.i = __binary80_to_bid128 (x);
   return (res.d);
diff --git a/libbid/bid_conf.h b/libbid/bid_conf.h
index c5a43f2..c43fb33 100644
--- a/libbid/bid_conf.h
+++ b/libbid/bid_conf.h
@@ -552,9 +552,19 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #define DECIMAL_GLOBAL_EXCEPTION_FLAGS 1
 #define DECIMAL_GLOBAL_EXCEPTION_FLAGS_ACCESS_FUNCTIONS 1
 #define BID_HAS_GCC_DECIMAL_INTRINSICS 1
-extern void __dfp_set_status (int excepts);
-// Use a statement expression (GNU C) to quiet warnings
-#define __set_status_flags(fpsc, status) ({ __dfp_set_status(status); (void)fpsc; })
+// The operations record their exceptions in _IDEC_glbflags, test them there
+// and at times take them back; they also use binary floating-point arithmetic,
+// whose exceptions are not theirs.  BID_OPERATION at the start of a function
+// makes the floating-point environment show on return exactly the exceptions
+// left in _IDEC_glbflags, in addition to those that were raised before.
+struct __dfp_operation { int fenv; unsigned int glbflags; };
+extern struct __dfp_operation __dfp_begin_operation (void)
+  __attribute__ ((visibility ("hidden")));
+extern void __dfp_end_operation (struct __dfp_operation *)
+  __attribute__ ((visibility ("hidden")));
+#define BID_OPERATION \
+  struct __dfp_operation __dfp_op \
+    __attribute__ ((cleanup (__dfp_end_operation))) = __dfp_begin_operation ()
 // End libdfp options
 
 // Configuration Options
diff --git a/libbid/bid_decimal_globals.c b/libbid/bid_decimal_globals.c
index 5ce0655..3323471 100644
--- a/libbid/bid_decimal_globals.c
+++ b/libbid/bid_decimal_globals.c
@@ -87,22 +87,35 @@ __dfp_raise_except (int mask) {
   _IDEC_glbflags |= flags;
 }
 
+static int
+to_fenv (_IDEC_flags flags) {
+  return ((flags & INEXACT_EXCEPTION) ? FE_INEXACT : 0)
+	 | ((flags & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0)
+	 | ((flags & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0)
+	 | ((flags & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0)
+	 | ((flags & INVALID_EXCEPTION) ? FE_INVALID : 0);
+}
+
+struct __dfp_operation
+__dfp_begin_operation (void) {
+  struct __dfp_operation op;
+
+  op.fenv = fetestexcept (FE_ALL_EXCEPT);
+  op.glbflags = _IDEC_glbflags;
+  _IDEC_glbflags = EXACT_STATUS;
+  return op;
+}
+
 void
-__dfp_set_status (int excepts) {
-  _IDEC_glbflags |= excepts;
-  if (excepts == INEXACT_EXCEPTION)
-    {
-      fesetexcept (FE_INEXACT);
-    }
-  else
-    {
-      int fexcepts = (excepts & INEXACT_EXCEPTION) ? FE_INEXACT : 0;
-      fexcepts = (excepts & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0;
-      fexcepts = (excepts & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0;
-      fexcepts = (excepts & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0;
-      fexcepts = (excepts & INVALID_EXCEPTION) ? FE_INVALID: 0;
-      fesetexcept (fexcepts);
-    }
+__dfp_end_operation (struct __dfp_operation *op) {
+  int before = op->fenv | to_fenv (_IDEC_glbflags);
+  int now = fetestexcept (FE_ALL_EXCEPT);
+
+  if (now & ~before)
+    feclearexcept (now & ~before);
+  if (before & ~now)
+    fesetexcept (before & ~now);
+  _IDEC_glbflags |= op->glbflags;
 }
 #endif
 #endif
-- 
2.43.0


From c2246e14a7dabbabf2ed93982602f611132c2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 02/48] fix: read non-canonical BID coefficients as zero
 outside libbid too

---
 libdecnumber/bid/bid2dpd_dpd2bid.c | 11 +++++++++++
 sysdeps/generic/convert_helpers.h  | 12 ++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/libdecnumber/bid/bid2dpd_dpd2bid.c b/libdecnumber/bid/bid2dpd_dpd2bid.c
index 63d3cec..7b763d5 100644
--- a/libdecnumber/bid/bid2dpd_dpd2bid.c
+++ b/libdecnumber/bid/bid2dpd_dpd2bid.c
@@ -189,6 +189,9 @@ _bid_to_dpd64 (_Decimal64 *pres, _Decimal64 *px) {
   if ((comb & 0xc00) == 0xc00) { /* G0..G1 = 11 -> exp is G2..G11 */
     exp = (comb) & 0x3ff;
     bcoeff = (x & 0x0007ffffffffffffull) | 0x0020000000000000ull;
+    /* A non-canonical coefficient means zero.  */
+    if (bcoeff > 9999999999999999ull)
+      bcoeff = 0;
   } else {
     exp = (comb >> 2) & 0x3ff;
     bcoeff = (x & 0x001fffffffffffffull);
@@ -301,6 +304,14 @@ _bid_to_dpd128 (_Decimal128 *pres, _Decimal128 *px) {
     exp = ((x.w[1] & 0x7fff000000000000ull) >> 49) & 0x3fff;
     bcoeff.w[1] = (x.w[1] & 0x0001ffffffffffffull);
     bcoeff.w[0] = x.w[0];
+    /* A non-canonical coefficient means zero.  */
+    if ((comb & 0x18000) == 0x18000) {
+      exp = ((x.w[1] & 0x1fffc00000000000ull) >> 47) & 0x3fff;
+      bcoeff.w[1] = bcoeff.w[0] = 0;
+    } else if (bcoeff.w[1] > 0x0001ed09bead87c0ull
+               || (bcoeff.w[1] == 0x0001ed09bead87c0ull
+                   && bcoeff.w[0] > 0x378d8e63ffffffffull))
+      bcoeff.w[1] = bcoeff.w[0] = 0;
     d1018 = reciprocals10_128[18];
     __mul_128x128_high (BH, bcoeff, d1018);
     amount = recip_scale[18];
diff --git a/sysdeps/generic/convert_helpers.h b/sysdeps/generic/convert_helpers.h
index 8a4301e..06049fe 100644
--- a/sysdeps/generic/convert_helpers.h
+++ b/sysdeps/generic/convert_helpers.h
@@ -76,6 +76,8 @@ getmantd32 (_Decimal32 sd, long *exp)
     {
       *exp = (n.i >> 21) & 0xFF;
       m = (n.i & 0x1FFFFF) | (1 << 23);
+      if (m > 9999999)	/* Non-canonical.  */
+	m = 0;
     }
   *exp -= DECIMAL32_Bias;
   return neg ? -m : m;
@@ -98,6 +100,8 @@ getmantd64 (_Decimal64 dd, long *exp)
       *exp = (n.i >> 51) & 0x3FF;
       m = n.i & 0x7FFFFFFFFFFFFLL;
       m |= (1LL << 53LL);
+      if (m > 9999999999999999LL)	/* Non-canonical.  */
+	m = 0;
     }
   *exp -= DECIMAL64_Bias;
   return neg ? -m : m;
@@ -126,6 +130,14 @@ getmantd128 (_Decimal128 td, long *exp)
   *exp = n.bc.e;
   *exp -= DECIMAL128_Bias;
   m = n.bc.c;
+  if ((n.bc.e >> 12) == 0x3)	/* Non-canonical.  */
+    {
+      *exp = ((n.bc.e & 0xFFF) << 2) | (int) (m >> 111);
+      *exp -= DECIMAL128_Bias;
+      m = 0;
+    }
+  else if (m / 1000000000000000000LL > 9999999999999999LL)
+    m = 0;
   return n.bc.s ? -m : m;
 }
 #endif /* INT128 */
-- 
2.43.0


From 81d9ec9848b35703e05f402be1076c32e419945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 03/48] fix: convert 2^31 and 2^63 to unsigned integers, which
 are not the invalid indicator

---
 libbid/_dd_to_udi.c | 3 ++-
 libbid/_dd_to_usi.c | 3 ++-
 libbid/_sd_to_udi.c | 3 ++-
 libbid/_sd_to_usi.c | 3 ++-
 libbid/_td_to_udi.c | 3 ++-
 libbid/_td_to_usi.c | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/libbid/_dd_to_udi.c b/libbid/_dd_to_udi.c
index 43d4722..5f784cb 100644
--- a/libbid/_dd_to_udi.c
+++ b/libbid/_dd_to_udi.c
@@ -34,7 +34,8 @@ __bid_fixunsdddi (_Decimal64 x) {
   ux.d = x;
   res = __bid64_to_uint64_xint (ux.i);
 
-  if (res == 0x8000000000000000ull) res = 0; // for NaNs too
+  if (res == 0x8000000000000000ull && (_IDEC_glbflags & INVALID_EXCEPTION))
+    res = 0; // for NaNs too
   return (res);
 }
 
diff --git a/libbid/_dd_to_usi.c b/libbid/_dd_to_usi.c
index 8dad180..7f512e6 100644
--- a/libbid/_dd_to_usi.c
+++ b/libbid/_dd_to_usi.c
@@ -34,7 +34,8 @@ __bid_fixunsddsi (_Decimal64 x) {
   ux.d = x;
   res = __bid64_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  if (res == 0x80000000 && (_IDEC_glbflags & INVALID_EXCEPTION))
+    res = 0; // for NaNs too
   return (res);
 }
 
diff --git a/libbid/_sd_to_udi.c b/libbid/_sd_to_udi.c
index 9c712aa..7c2c6ba 100644
--- a/libbid/_sd_to_udi.c
+++ b/libbid/_sd_to_udi.c
@@ -36,7 +36,8 @@ __bid_fixunssddi (_Decimal32 x) {
   x64 = __bid32_to_bid64 (ux.i);
   res = __bid64_to_uint64_xint (x64);
 
-  if (res == 0x8000000000000000ull) res = 0; // for NaNs too
+  if (res == 0x8000000000000000ull && (_IDEC_glbflags & INVALID_EXCEPTION))
+    res = 0; // for NaNs too
   return (res);
 }
 
diff --git a/libbid/_sd_to_usi.c b/libbid/_sd_to_usi.c
index 1f9fe92..44eab69 100644
--- a/libbid/_sd_to_usi.c
+++ b/libbid/_sd_to_usi.c
@@ -36,7 +36,8 @@ __bid_fixunssdsi (_Decimal32 x) {
   x64 = __bid32_to_bid64 (ux.i);
   res = __bid64_to_uint32_xint (x64);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  if (res == 0x80000000 && (_IDEC_glbflags & INVALID_EXCEPTION))
+    res = 0; // for NaNs too
   return (res);
 }
 
diff --git a/libbid/_td_to_udi.c b/libbid/_td_to_udi.c
index cd20f76..1257b18 100644
--- a/libbid/_td_to_udi.c
+++ b/libbid/_td_to_udi.c
@@ -35,7 +35,8 @@ __bid_fixunstddi (_Decimal128 x) {
 
   res = __bid128_to_uint64_xint (ux.i);
 
-  if (res == 0x8000000000000000ull) res = 0; // for NaNs too
+  if (res == 0x8000000000000000ull && (_IDEC_glbflags & INVALID_EXCEPTION))
+    res = 0; // for NaNs too
   return (res);
 }
 
diff --git a/libbid/_td_to_usi.c b/libbid/_td_to_usi.c
index e26f74d..c982937 100644
--- a/libbid/_td_to_usi.c
+++ b/libbid/_td_to_usi.c
@@ -34,7 +34,8 @@ __bid_fixunstdsi (_Decimal128 x) {
   ux.d = x;
   res = __bid128_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  if (res == 0x80000000 && (_IDEC_glbflags & INVALID_EXCEPTION))
+    res = 0; // for NaNs too
   return (res);
 }
 
-- 
2.43.0


From 990c30a02d07d3b015506c14959e7a627162c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 04/48] fix: do not sign-extend the magnitude of INT_MIN in
 bid64_from_int32

---
 libbid/bid_from_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libbid/bid_from_int.c b/libbid/bid_from_int.c
index cfee0ed..63fdefe 100644
--- a/libbid/bid_from_int.c
+++ b/libbid/bid_from_int.c
@@ -42,8 +42,8 @@ bid64_from_int32 (int x _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
   // in the lowest 32bits of the result
   if ((x & SIGNMASK32) == SIGNMASK32) {
     // negative int32
-    x = ~x + 1;	// 2's complement of x
-    res = (unsigned int) x | 0xb1c0000000000000ull;
+    // 2's complement of x
+    res = (~(unsigned int) x + 1) | 0xb1c0000000000000ull;
     // (exp << 53)) = biased exp. is 0
   } else {	// positive int32
     res = x | 0x31c0000000000000ull;	// (exp << 53)) = biased exp. is 0
-- 
2.43.0


From 056d7f5908baed737a4b5af0e88bb42e6461048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 05/48] fix: round the conversion of 64-bit integers to
 _Decimal32 once

---
 libbid/_di_to_sd.c  | 6 +++---
 libbid/_udi_to_sd.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libbid/_di_to_sd.c b/libbid/_di_to_sd.c
index bd42126..fbd11ae 100644
--- a/libbid/_di_to_sd.c
+++ b/libbid/_di_to_sd.c
@@ -29,10 +29,10 @@ _Decimal32
 __bid_floatdisd (DItype x) {
   BID_OPERATION;
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_int64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  res128 = __bid128_from_int64 (x); // exact
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatdisd);
diff --git a/libbid/_udi_to_sd.c b/libbid/_udi_to_sd.c
index e23ad78..6018568 100644
--- a/libbid/_udi_to_sd.c
+++ b/libbid/_udi_to_sd.c
@@ -29,10 +29,10 @@ _Decimal32
 __bid_floatunsdisd (UDItype x) {
   BID_OPERATION;
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_uint64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  res128 = __bid128_from_uint64 (x); // exact
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatunsdisd);
-- 
2.43.0


From 873624f62d2be53e75415fa896c92c57bd6022d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 06/48] fix: round the conversion of 128-bit integers in the
 current direction and raise inexact

---
 base-math/floattitd.c           | 29 +++++++++++++++++++----------
 sysdeps/soft-dfp/candtruncd32.c |  9 +++++++--
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/base-math/floattitd.c b/base-math/floattitd.c
index ea98a85..c168539 100644
--- a/base-math/floattitd.c
+++ b/base-math/floattitd.c
@@ -125,8 +125,8 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
     }
   else
     {
-      /* Else convert the absolute (unsigned) value to Decimal and
-       * correct the sign later if needed.  */
+      /* Else convert the absolute (unsigned) value to Decimal, chunk
+       * by chunk.  */
       y = u / ten_17;
       z = u % ten_17;
       t_low = (unsigned long long) z;
@@ -135,6 +135,13 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  t_mid = (unsigned long long) y;
 	  d_mid = t_mid;
 	  d_low = t_low;
+#ifndef UNSIGNED
+	  if (negative)
+	    {
+	      d_mid = -d_mid;
+	      d_low = -d_low;
+	    }
+#endif
 	  result = (d_mid * 100000000000000000.DL) + d_low;
 	}
       else
@@ -147,6 +154,16 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  d_mid = t_mid;
 	  d_high = t_high;
 
+#ifndef UNSIGNED
+	  /* The rounding direction applies to the signed value.  */
+	  if (negative)
+	    {
+	      d_low = -d_low;
+	      d_mid = -d_mid;
+	      d_high = -d_high;
+	    }
+#endif
+
           /* Call out to internal helpers to properly handle
 	   * conversion and trunctation into a smaller format.
 	   */
@@ -159,14 +176,6 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  result = (result * 100000000000000000.DL) + d_low;
 #endif
 	}
-
-#ifndef UNSIGNED
-      /* Converted the absolute 127-bit value of "a" to Decimal128.
-       * Now correct the decimal sign if the original value
-       * was negative.  */
-      if (negative)
-	result = -result;
-#endif
     }
 
   return (result);
diff --git a/sysdeps/soft-dfp/candtruncd32.c b/sysdeps/soft-dfp/candtruncd32.c
index f1fbca0..2a735df 100644
--- a/sysdeps/soft-dfp/candtruncd32.c
+++ b/sysdeps/soft-dfp/candtruncd32.c
@@ -42,7 +42,9 @@
 
 #include "convert_helpers.h"
 
-#include <stdio.h>
+#include <fenv.h>
+#include <math.h>
+#include <mapround.h>
 
 DEC_TYPE
 FUNC_NAME (_Decimal128 hi, _Decimal128 mid, _Decimal128 low)
@@ -80,8 +82,11 @@ FUNC_NAME (_Decimal128 hi, _Decimal128 mid, _Decimal128 low)
   decNumberAdd(&dn_result, &dn_result_s, &dn_low, &context);
 
   /* Convert to the destination format.  */
+  context.round = __dn_getround ();
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-  /* Don't care about exceptions here... I don't think.  */
+  if (context.status & DEC_Inexact)
+    DFP_EXCEPT (FE_INEXACT);
+
   return result;
 }
-- 
2.43.0


From 6810c052322668232889e9af54ea87c18793cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 07/48] fix: truncate before the range check of decimal to
 128-bit integer, and raise inexact

---
 base-math/fixsdti.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base-math/fixsdti.c b/base-math/fixsdti.c
index 1dee500..63eeeba 100644
--- a/base-math/fixsdti.c
+++ b/base-math/fixsdti.c
@@ -106,14 +106,18 @@ RET_TYPE __BACKEND_(FUNC) (DEC_TYPE a)
       return min.ti;
   }
 
-  if(a < MIN_VAL || a > MAX_VAL)
+  DEC_TYPE a_int = TRUNC (a);
+
+  if(a_int < MIN_VAL || a_int > MAX_VAL)
   {
     DFP_EXCEPT (FE_INVALID);
     return SIGNBIT(a) ? min.ti : max.ti;
   }
 
+  if (a_int != a)
+    DFP_EXCEPT (FE_INEXACT);
+
   long e;
-  DEC_TYPE a_int = TRUNC (a);
   RET_TYPE mant = GETMANT (a_int, &e);
 
   if (e > 0)
-- 
2.43.0


From c6091103808672acbc0eca85b58e9335c7923826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 08/48] fix: directed rounding of bid128_add when the smaller
 operand is half a unit in the last place

---
 libbid/bid128_add.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libbid/bid128_add.c b/libbid/bid128_add.c
index 986ef53..ba678be 100644
--- a/libbid/bid128_add.c
+++ b/libbid/bid128_add.c
@@ -1392,7 +1392,8 @@ bid128_add (UINT128 x, UINT128 y
 	      }
 	      if (rnd_mode != ROUNDING_TO_NEAREST) {
 		if ((rnd_mode == ROUNDING_TIES_AWAY && x_sign == y_sign)
-		    || (rnd_mode == ROUNDING_UP && !y_sign)) {
+		    || (rnd_mode == ROUNDING_UP && !x_sign && !y_sign)
+		    || (rnd_mode == ROUNDING_DOWN && x_sign && y_sign)) {
 		  // add 1 ulp and then check for overflow
 		  C1_lo = C1_lo + 1;
 		  if (C1_lo == 0) {	// rounding overflow in the low 64 bits
@@ -1412,7 +1413,8 @@ bid128_add (UINT128 x, UINT128 y
 		      *pfpsf |= OVERFLOW_EXCEPTION;
 		    }
 		  }
-		} else if ((rnd_mode == ROUNDING_DOWN && y_sign)
+		} else if ((rnd_mode == ROUNDING_DOWN && !x_sign && y_sign)
+			   || (rnd_mode == ROUNDING_UP && x_sign && !y_sign)
 			   || (rnd_mode == ROUNDING_TO_ZERO
 			       && x_sign != y_sign)) {
 		  // subtract 1 ulp from C1
-- 
2.43.0


From 8c475b8712ab2acfc552d4ca542120b0a263d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 09/48] fix: raise invalid when a quiet comparison macro meets
 a signaling NaN

---
 ieee754r/isgreaterd32.c      | 8 +++++++-
 ieee754r/isgreaterequald32.c | 7 ++++++-
 ieee754r/islessd32.c         | 7 ++++++-
 ieee754r/islessequald32.c    | 7 ++++++-
 ieee754r/islessgreaterd32.c  | 8 +++++++-
 5 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/ieee754r/isgreaterd32.c b/ieee754r/isgreaterd32.c
index fc3bd46..dda6d58 100644
--- a/ieee754r/isgreaterd32.c
+++ b/ieee754r/isgreaterd32.c
@@ -31,6 +31,7 @@
 
 #include <decContext.h>
 #include <decNumber.h>
+#include <fenv.h>
 #include <math.h>
 
 #define FUNCTION_NAME isgreater
@@ -50,8 +51,13 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   FUNC_CONVERT_TO_DN(&y, &dn_y);
 
   if(decNumberIsNaN(&dn_x) || decNumberIsNaN(&dn_y))
-    return 0;
+    {
+      if (decNumberIsSNaN(&dn_x) || decNumberIsSNaN(&dn_y))
+	DFP_EXCEPT (FE_INVALID);
+      return 0;
+    }
 
+  decContextDefault (&context, DEFAULT_CONTEXT);
   decNumberCompare (&dn_result, &dn_x, &dn_y, &context);
   return !decNumberIsNegative (&dn_result) && !decNumberIsZero(&dn_result);
 }
diff --git a/ieee754r/isgreaterequald32.c b/ieee754r/isgreaterequald32.c
index b474b66..8f297da 100644
--- a/ieee754r/isgreaterequald32.c
+++ b/ieee754r/isgreaterequald32.c
@@ -31,6 +31,7 @@
 
 #include <decContext.h>
 #include <decNumber.h>
+#include <fenv.h>
 #include <math.h>
 
 #define FUNCTION_NAME isgreaterequal
@@ -50,7 +51,11 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   FUNC_CONVERT_TO_DN(&y, &dn_y);
 
   if (decNumberIsNaN(&dn_x) || decNumberIsNaN(&dn_y))
-    return 0;
+    {
+      if (decNumberIsSNaN(&dn_x) || decNumberIsSNaN(&dn_y))
+	DFP_EXCEPT (FE_INVALID);
+      return 0;
+    }
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   decNumberCompare (&result, &dn_x, &dn_y, &context);
diff --git a/ieee754r/islessd32.c b/ieee754r/islessd32.c
index 8fc95fe..628a4e3 100644
--- a/ieee754r/islessd32.c
+++ b/ieee754r/islessd32.c
@@ -31,6 +31,7 @@
 
 #include <decContext.h>
 #include <decNumber.h>
+#include <fenv.h>
 #include <math.h>
 
 #define FUNCTION_NAME isless
@@ -50,7 +51,11 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   FUNC_CONVERT_TO_DN(&y, &dn_y);
 
   if (decNumberIsNaN(&dn_x) || decNumberIsNaN(&dn_y))
-    return 0;
+    {
+      if (decNumberIsSNaN(&dn_x) || decNumberIsSNaN(&dn_y))
+	DFP_EXCEPT (FE_INVALID);
+      return 0;
+    }
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   decNumberCompare (&dn_result, &dn_x, &dn_y, &context);
diff --git a/ieee754r/islessequald32.c b/ieee754r/islessequald32.c
index e360a7a..b18fda4 100644
--- a/ieee754r/islessequald32.c
+++ b/ieee754r/islessequald32.c
@@ -31,6 +31,7 @@
 
 #include <decContext.h>
 #include <decNumber.h>
+#include <fenv.h>
 #include <math.h>
 
 #define FUNCTION_NAME islessequal
@@ -50,7 +51,11 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   FUNC_CONVERT_TO_DN(&y, &dn_y);
 
   if(decNumberIsNaN(&dn_x) || decNumberIsNaN(&dn_y))
-    return 0;
+    {
+      if (decNumberIsSNaN(&dn_x) || decNumberIsSNaN(&dn_y))
+	DFP_EXCEPT (FE_INVALID);
+      return 0;
+    }
 
   decContextDefault(&context, DEFAULT_CONTEXT);
   decNumberCompare(&result, &dn_x, &dn_y, &context);
diff --git a/ieee754r/islessgreaterd32.c b/ieee754r/islessgreaterd32.c
index 04dad75..c73bd32 100644
--- a/ieee754r/islessgreaterd32.c
+++ b/ieee754r/islessgreaterd32.c
@@ -31,6 +31,7 @@
 
 #include <decContext.h>
 #include <decNumber.h>
+#include <fenv.h>
 #include <math.h>
 
 #define FUNCTION_NAME islessgreater
@@ -50,8 +51,13 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   FUNC_CONVERT_TO_DN(&y, &dn_y);
 
   if(decNumberIsNaN(&dn_x) || decNumberIsNaN(&dn_y))
-    return 0;
+    {
+      if (decNumberIsSNaN(&dn_x) || decNumberIsSNaN(&dn_y))
+	DFP_EXCEPT (FE_INVALID);
+      return 0;
+    }
 
+  decContextDefault (&context, DEFAULT_CONTEXT);
   decNumberCompare (&dn_result, &dn_x, &dn_y, &context);
   return (-decNumberIsNegative (&dn_result)) ||
 	 (!decNumberIsNegative (&dn_result) && !decNumberIsZero (&dn_result));
-- 
2.43.0


From c798b52be64ab1b0124e8239034f2c5fbb577b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 10/48] fix: detect tininess before rounding in every BID
 operation

---
 libbid/bid32_to_bid128.c | 11 +----------
 libbid/bid32_to_bid64.c  |  4 ----
 libbid/bid64_mul.c       |  8 +-------
 libbid/bid64_to_bid128.c | 11 +----------
 4 files changed, 3 insertions(+), 31 deletions(-)

diff --git a/libbid/bid32_to_bid128.c b/libbid/bid32_to_bid128.c
index 0c87633..1aef0a5 100644
--- a/libbid/bid32_to_bid128.c
+++ b/libbid/bid32_to_bid128.c
@@ -75,7 +75,7 @@ UINT32
 bid128_to_bid32 (UINT128 x _RND_MODE_PARAM _EXC_FLAGS_PARAM
 		 _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
 #endif
-  UINT128 CX, T128, TP128, Qh, Ql, Qh1, Stemp, Tmp, Tmp1, CX1;
+  UINT128 CX, T128, TP128, Qh, Ql, Qh1, Stemp, Tmp, Tmp1;
   UINT64 sign_x, carry, cy;
   SINT64 D;
   UINT32 res;
@@ -150,15 +150,6 @@ bid128_to_bid32 (UINT128 x _RND_MODE_PARAM _EXC_FLAGS_PARAM
       uf_check = 1;
       if (-extra_digits + exponent_x - DECIMAL_EXPONENT_BIAS_128 +
 	  DECIMAL_EXPONENT_BIAS_32 + 35 >= 0) {
-	if (exponent_x ==
-	    DECIMAL_EXPONENT_BIAS_128 - DECIMAL_EXPONENT_BIAS_32 - 1) {
-	  T128 = round_const_table_128[rmode][extra_digits];
-	  __add_carry_out (CX1.w[0], carry, T128.w[0], CX.w[0]);
-	  CX1.w[1] = CX.w[1] + T128.w[1] + carry;
-	  if (__unsigned_compare_ge_128
-	      (CX1, power10_table_128[extra_digits + 7]))
-	    uf_check = 0;
-	}
 	extra_digits =
 	  extra_digits + DECIMAL_EXPONENT_BIAS_128 -
 	  DECIMAL_EXPONENT_BIAS_32 - exponent_x;
diff --git a/libbid/bid32_to_bid64.c b/libbid/bid32_to_bid64.c
index eff4014..7257be3 100644
--- a/libbid/bid32_to_bid64.c
+++ b/libbid/bid32_to_bid64.c
@@ -139,10 +139,6 @@ bid64_to_bid32 (UINT64 x _RND_MODE_PARAM _EXC_FLAGS_PARAM
     exponent_x += extra_digits;
     if ((exponent_x < 0) && (exponent_x + MAX_FORMAT_DIGITS_32 >= 0)) {
       status = UNDERFLOW_EXCEPTION;
-      if (exponent_x == -1)
-	if (coefficient_x + round_const_table[rmode][extra_digits] >=
-	    power10_table_128[extra_digits + 7].w[0])
-	  status = 0;
       extra_digits -= exponent_x;
       exponent_x = 0;
     }
diff --git a/libbid/bid64_mul.c b/libbid/bid64_mul.c
index 2c0c850..00ed0bc 100644
--- a/libbid/bid64_mul.c
+++ b/libbid/bid64_mul.c
@@ -57,7 +57,7 @@ bid64_mul (UINT64 x,
 	   UINT64 y _RND_MODE_PARAM _EXC_FLAGS_PARAM
 	   _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
 #endif
-  UINT128 P, PU, C128, Q_high, Q_low, Stemp;
+  UINT128 P, C128, Q_high, Q_low, Stemp;
   UINT64 sign_x, sign_y, coefficient_x, coefficient_y;
   UINT64 C64, remainder_h, carry, CY, res;
   UINT64 valid_x, valid_y;
@@ -229,12 +229,6 @@ bid64_mul (UINT64 x,
 	}
 
 	uf_status = UNDERFLOW_EXCEPTION;
-	if (final_exponent == -1) {
-	  __add_128_64 (PU, P, round_const_table[rmode][extra_digits]);
-	  if (__unsigned_compare_ge_128
-	      (PU, power10_table_128[extra_digits + 16]))
-	    uf_status = 0;
-	}
 	extra_digits -= final_exponent;
 	final_exponent = 0;
 
diff --git a/libbid/bid64_to_bid128.c b/libbid/bid64_to_bid128.c
index b3da756..f5fc5d9 100644
--- a/libbid/bid64_to_bid128.c
+++ b/libbid/bid64_to_bid128.c
@@ -74,7 +74,7 @@ UINT64
 bid128_to_bid64 (UINT128 x _RND_MODE_PARAM _EXC_FLAGS_PARAM
 		 _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
 #endif
-  UINT128 CX, T128, TP128, Qh, Ql, Qh1, Stemp, Tmp, Tmp1, CX1;
+  UINT128 CX, T128, TP128, Qh, Ql, Qh1, Stemp, Tmp, Tmp1;
   UINT64 sign_x, carry, cy, res;
   SINT64 D;
   int_float f64, fx;
@@ -148,15 +148,6 @@ bid128_to_bid64 (UINT128 x _RND_MODE_PARAM _EXC_FLAGS_PARAM
       uf_check = 1;
       if (-extra_digits + exponent_x - DECIMAL_EXPONENT_BIAS_128 +
 	  DECIMAL_EXPONENT_BIAS + 35 >= 0) {
-	if (exponent_x ==
-	    DECIMAL_EXPONENT_BIAS_128 - DECIMAL_EXPONENT_BIAS - 1) {
-	  T128 = round_const_table_128[rmode][extra_digits];
-	  __add_carry_out (CX1.w[0], carry, T128.w[0], CX.w[0]);
-	  CX1.w[1] = CX.w[1] + T128.w[1] + carry;
-	  if (__unsigned_compare_ge_128
-	      (CX1, power10_table_128[extra_digits + 16]))
-	    uf_check = 0;
-	}
 	extra_digits =
 	  extra_digits + DECIMAL_EXPONENT_BIAS_128 -
 	  DECIMAL_EXPONENT_BIAS - exponent_x;
-- 
2.43.0


From 7f2c15cf5b7766c217672cb6562634f9203c4a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 11/48] fix: do not let the binary rounding direction change
 decimal quotients

---
 libbid/bid_conf.h            | 5 +++--
 libbid/bid_decimal_globals.c | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libbid/bid_conf.h b/libbid/bid_conf.h
index c43fb33..1ecd811 100644
--- a/libbid/bid_conf.h
+++ b/libbid/bid_conf.h
@@ -556,8 +556,9 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 // and at times take them back; they also use binary floating-point arithmetic,
 // whose exceptions are not theirs.  BID_OPERATION at the start of a function
 // makes the floating-point environment show on return exactly the exceptions
-// left in _IDEC_glbflags, in addition to those that were raised before.
-struct __dfp_operation { int fenv; unsigned int glbflags; };
+// left in _IDEC_glbflags, in addition to those that were raised before.  The
+// binary arithmetic relies on rounding to nearest.
+struct __dfp_operation { int fenv; int round; unsigned int glbflags; };
 extern struct __dfp_operation __dfp_begin_operation (void)
   __attribute__ ((visibility ("hidden")));
 extern void __dfp_end_operation (struct __dfp_operation *)
diff --git a/libbid/bid_decimal_globals.c b/libbid/bid_decimal_globals.c
index 3323471..61f2965 100644
--- a/libbid/bid_decimal_globals.c
+++ b/libbid/bid_decimal_globals.c
@@ -101,6 +101,9 @@ __dfp_begin_operation (void) {
   struct __dfp_operation op;
 
   op.fenv = fetestexcept (FE_ALL_EXCEPT);
+  op.round = fegetround ();
+  if (op.round != FE_TONEAREST)
+    fesetround (FE_TONEAREST);
   op.glbflags = _IDEC_glbflags;
   _IDEC_glbflags = EXACT_STATUS;
   return op;
@@ -111,6 +114,8 @@ __dfp_end_operation (struct __dfp_operation *op) {
   int before = op->fenv | to_fenv (_IDEC_glbflags);
   int now = fetestexcept (FE_ALL_EXCEPT);
 
+  if (op->round != FE_TONEAREST)
+    fesetround (op->round);
   if (now & ~before)
     feclearexcept (now & ~before);
   if (before & ~now)
-- 
2.43.0


From 1f2b3db7e6fd0e5ca88c5e6d2f0ee8794cff263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 12/48] fix: check the rounded value against the range in
 lrint, llrint, lround and llround

---
 ieee754r/llroundd32.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/ieee754r/llroundd32.c b/ieee754r/llroundd32.c
index f1c7ca0..79baeb9 100644
--- a/ieee754r/llroundd32.c
+++ b/ieee754r/llroundd32.c
@@ -52,8 +52,8 @@
 # define __ROUND_MODE DEC_ROUND_HALF_UP
 #endif
 
-static __ROUND_RETURN_TYPE
-IEEE_FUNCTION_NAME (DEC_TYPE x)
+__ROUND_RETURN_TYPE
+INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
   DEC_TYPE result;
   decContext context;
@@ -61,10 +61,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_x;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x)
-	|| x > __MAX_VALUE || x < __MIN_VALUE)
+  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x))
     {
       DFP_EXCEPT (FE_INVALID);
+      DFP_ERRNO (EDOM);
       return (__ROUND_RETURN_TYPE) x;
     }
 
@@ -74,6 +74,15 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
 
+  /* _Decimal128 represents the bounds exactly.  */
+  if ((_Decimal128) result > (_Decimal128) __MAX_VALUE
+      || (_Decimal128) result < (_Decimal128) __MIN_VALUE)
+    {
+      DFP_EXCEPT (FE_INVALID);
+      DFP_ERRNO (EDOM);
+      return (__ROUND_RETURN_TYPE) result;
+    }
+
 #ifdef POSTFIX_CHECK
   POSTFIX_CHECK;
 #endif
@@ -84,14 +93,4 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 /*  return (__ROUND_RETURN_TYPE)decNumberToInteger (&dn_result); */
 }
 
-__ROUND_RETURN_TYPE
-INTERNAL_FUNCTION_NAME (DEC_TYPE x)
-{
-  __ROUND_RETURN_TYPE z = IEEE_FUNCTION_NAME (x);
-  if (FUNC_D(__isnan) (x) || FUNC_D(__isinf) (x)
-	|| x > __MAX_VALUE || x < __MIN_VALUE)
-    DFP_ERRNO (EDOM);
-  return z;
-}
-
 weak_alias (INTERNAL_FUNCTION_NAME, EXTERNAL_FUNCTION_NAME)
-- 
2.43.0


From c1d18022dda0d569164d266997444f6b235b05fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 13/48] fix: give integral zeros the exponent zero in the
 rounding functions

---
 ieee754r/ceild32.c      | 3 +--
 ieee754r/floord32.c     | 3 +--
 ieee754r/nearbyintd32.c | 5 ++---
 ieee754r/roundd32.c     | 3 +--
 4 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/ieee754r/ceild32.c b/ieee754r/ceild32.c
index 2888684..971444b 100644
--- a/ieee754r/ceild32.c
+++ b/ieee754r/ceild32.c
@@ -45,8 +45,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_x;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x)
-		|| decNumberIsZero (&dn_x) )
+  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x))
     return x+x;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
diff --git a/ieee754r/floord32.c b/ieee754r/floord32.c
index 5269aed..93356d8 100644
--- a/ieee754r/floord32.c
+++ b/ieee754r/floord32.c
@@ -45,8 +45,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_x;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x)
-		|| decNumberIsZero (&dn_x) )
+  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x))
     return x+x;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
diff --git a/ieee754r/nearbyintd32.c b/ieee754r/nearbyintd32.c
index ced3542..866bbb1 100644
--- a/ieee754r/nearbyintd32.c
+++ b/ieee754r/nearbyintd32.c
@@ -50,9 +50,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   decContextDefault (&context,DEFAULT_CONTEXT);
 
-  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x) ||
-	decNumberIsZero (&dn_x))
-	return x+x;
+  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x))
+    return x+x;
 
   context.round = __dn_getround();
   decNumberToIntegralValue (&dn_result,&dn_x,&context);
diff --git a/ieee754r/roundd32.c b/ieee754r/roundd32.c
index 9686deb..0fad47e 100644
--- a/ieee754r/roundd32.c
+++ b/ieee754r/roundd32.c
@@ -51,8 +51,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_x;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x) ||
-	decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x))
     return x+x;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-- 
2.43.0


From 791a0ba958ad33292ae4b1be44663fb81fc33561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 14/48] fix: raise invalid for signaling NaN operands of trunc
 and roundeven

---
 ieee754r/roundevend32.c | 4 ++--
 ieee754r/truncd32.c     | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ieee754r/roundevend32.c b/ieee754r/roundevend32.c
index d82c0d8..c1ec787 100644
--- a/ieee754r/roundevend32.c
+++ b/ieee754r/roundevend32.c
@@ -43,12 +43,12 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_x;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
+  if (decNumberIsNaN (&dn_x))
+    return x+x;
 
-  decContextDefault (&context, DEFAULT_CONTEXT);
   decContextDefault (&context, DEFAULT_CONTEXT);
   context.round = DEC_ROUND_HALF_EVEN;
   decNumberToIntegralValue (&dn_result, &dn_x, &context);
-  decNumberToIntegralValue (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/truncd32.c b/ieee754r/truncd32.c
index 214c1f1..6526565 100644
--- a/ieee754r/truncd32.c
+++ b/ieee754r/truncd32.c
@@ -46,6 +46,8 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_x;
 
   FUNC_CONVERT_TO_DN(&x, &dn_x);
+  if (decNumberIsNaN (&dn_x))
+    return x+x;
 
   decContextDefault(&context, DEFAULT_CONTEXT);
   context.round = DEC_ROUND_DOWN;
-- 
2.43.0


From 35f435c0032067ed089b5e0fc4abcd7daa2dbb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 15/48] fix: round fdim in the current direction

---
 ieee754r/fdimd32.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieee754r/fdimd32.c b/ieee754r/fdimd32.c
index 6109c71..74b644b 100644
--- a/ieee754r/fdimd32.c
+++ b/ieee754r/fdimd32.c
@@ -33,6 +33,7 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #define FUNCTION_NAME fdim
 
@@ -59,6 +60,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   if (decNumberIsNegative(&dn_result) || decNumberIsZero(&dn_result))
     return 0;
 
+  context.round = __dn_getround ();
   decNumberSubtract (&dn_result, &dn_x, &dn_y, &context);
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
   if (context.status & DEC_Overflow)
-- 
2.43.0


From e53d81d2f536d27cb263d719a6662d783269dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 16/48] fix: raise nothing but invalid in nextup and nextdown,
 and quiet signaling NaNs

---
 ieee754r/nextdownd32.c | 18 +++++++++++++++++-
 ieee754r/nextupd32.c   | 18 +++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/ieee754r/nextdownd32.c b/ieee754r/nextdownd32.c
index 09636ed..1126c1b 100644
--- a/ieee754r/nextdownd32.c
+++ b/ieee754r/nextdownd32.c
@@ -28,6 +28,8 @@
 # define _DECIMAL_SIZE 32
 #endif
 
+#include <decContext.h>
+#include <decNumber.h>
 #include <math.h>
 #include <ieee754r_private.h>
 
@@ -38,7 +40,21 @@
 DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
-  return FUNC_D(__nextafter) (x, -1*DEC_INFINITY);
+  decContext context;
+  decNumber dn_x;
+  DEC_TYPE result;
+
+  FUNC_CONVERT_TO_DN (&x, &dn_x);
+
+  /* Unlike nextafter, this raises no exception other than invalid for a
+     signaling NaN, and does not touch errno.  */
+  decContextDefault (&context, DEFAULT_CONTEXT);
+  decNumberNextMinus (&dn_x, &dn_x, &context);
+  FUNC_CONVERT_FROM_DN (&dn_x, &result, &context);
+  if (context.status & DEC_Invalid_operation)
+    DFP_EXCEPT (FE_INVALID);
+
+  return result;
 }
 
 weak_alias (INTERNAL_FUNCTION_NAME, EXTERNAL_FUNCTION_NAME)
diff --git a/ieee754r/nextupd32.c b/ieee754r/nextupd32.c
index b954b43..9585a3d 100644
--- a/ieee754r/nextupd32.c
+++ b/ieee754r/nextupd32.c
@@ -28,6 +28,8 @@
 # define _DECIMAL_SIZE 32
 #endif
 
+#include <decContext.h>
+#include <decNumber.h>
 #include <math.h>
 #include <ieee754r_private.h>
 
@@ -38,7 +40,21 @@
 DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
-  return FUNC_D(__nextafter) (x, DEC_INFINITY);
+  decContext context;
+  decNumber dn_x;
+  DEC_TYPE result;
+
+  FUNC_CONVERT_TO_DN (&x, &dn_x);
+
+  /* Unlike nextafter, this raises no exception other than invalid for a
+     signaling NaN, and does not touch errno.  */
+  decContextDefault (&context, DEFAULT_CONTEXT);
+  decNumberNextPlus (&dn_x, &dn_x, &context);
+  FUNC_CONVERT_FROM_DN (&dn_x, &result, &context);
+  if (context.status & DEC_Invalid_operation)
+    DFP_EXCEPT (FE_INVALID);
+
+  return result;
 }
 
 weak_alias (INTERNAL_FUNCTION_NAME, EXTERNAL_FUNCTION_NAME)
-- 
2.43.0


From 47a686bd5f9b9e10ed60dc7c5a981fda38975622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 17/48] fix: no range error for NaN operands of nextafter and
 nexttoward, and quiet signaling NaNs

---
 ieee754r/nextafterd32.c  | 8 +++-----
 ieee754r/nexttowardd32.c | 6 +++---
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/ieee754r/nextafterd32.c b/ieee754r/nextafterd32.c
index 42762d2..54e4b1f 100644
--- a/ieee754r/nextafterd32.c
+++ b/ieee754r/nextafterd32.c
@@ -61,10 +61,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
         }
        return x;
     }
-  else if (x != x)
-    return x;
-  else if (y != y)
-    return y;
+  else if (x != x || y != y)
+    return x + y;
   else if (x > y)
     {
       if (x == SUBNORMAL_MIN) /* Special case: this value always return 0.  */
@@ -95,7 +93,7 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D (__isfinite) (z) && FUNC_D (__isfinite) (x))
+  if (FUNC_D (__isinf) (z) && FUNC_D (__isfinite) (x))
     DFP_ERRNO (ERANGE);
   /* TODO: Handle underflow here */
   return z;
diff --git a/ieee754r/nexttowardd32.c b/ieee754r/nexttowardd32.c
index dd77abf..ed82ab0 100644
--- a/ieee754r/nexttowardd32.c
+++ b/ieee754r/nexttowardd32.c
@@ -64,9 +64,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, _Decimal128 y)
        return x;
     }
   else if (x != x)
-    return x;
+    return x + x;
   else if (y != y)
-    return y;
+    return (DEC_TYPE) (y + y);
   else if (x128 > y)
     {
       if (x == SUBNORMAL_MIN) /* Special case: this value always return 0.  */
@@ -97,7 +97,7 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, _Decimal128 y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
+  if (FUNC_D (__isinf) (z) && FUNC_D (__isfinite) (x))
     DFP_ERRNO (ERANGE);
   /* TODO: Handle underflow */
   return z;
-- 
2.43.0


From a8b3bf61072d79057cc226fc5ff203b7f307ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 18/48] fix: scale by powers of ten with one rounding in ldexp,
 scalbn and scalbln

---
 ieee754r/ldexpd32.c   | 70 +++++++++++++------------------------------
 ieee754r/scalblnd32.c | 55 ++++++++++++++++------------------
 ieee754r/scalbnd32.c  | 51 ++++++++++++++++---------------
 3 files changed, 71 insertions(+), 105 deletions(-)

diff --git a/ieee754r/ldexpd32.c b/ieee754r/ldexpd32.c
index 4b06ed4..2874c0f 100644
--- a/ieee754r/ldexpd32.c
+++ b/ieee754r/ldexpd32.c
@@ -33,73 +33,45 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #define FUNCTION_NAME ldexp
 
 #include <dfpmacro.h>
-#include <numdigits.h>
-#include <limits.h>
-
-#include "dfp_inline.h"
 
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 {
-  DEC_TYPE result, tiny;
-  long newexp;
-  int minexp = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emin));
-  int p = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Pmax));
-
-#if NUMDIGITS_SUPPORT==1
-  newexp = FUNC_D (getexp) (x) + y;
-  if (newexp > PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emax)))
-    {
-    result = FUNC_D(__copysign)(DFP_HUGE_VAL, x);
-    DFP_EXCEPT (FE_OVERFLOW);
-    }
-  else if (newexp < minexp)
-    {
-    /* Check if the result might be subnormal. */
-    if( newexp > (minexp - p))
-      {
-        result = FUNC_D(setexp) (x, minexp);
-        /* Use a multiply so we correctly round whatever may shifts out. */
-        tiny = FUNC_D(setexp) (1.DL, newexp - minexp);
-        return result * tiny;
-      }
-    result = DFP_CONSTANT(0.0);
-    DFP_EXCEPT (FE_UNDERFLOW);
-    return result;
-    }
-  else
-    result = FUNC_D(setexp) (x, newexp);
-
-#else
   decContext context;
+  DEC_TYPE result;
   decNumber dn_x;
+  int limit;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (___decNumberIsNaN (&dn_x) || ___decNumberIsZero (&dn_x) ||
-	___decNumberIsInfinite (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x+x;
-  if (y == 0)
-    return x;
-
-  /* ldexp(x,y) is just x*10**y, which is equivalent to increasing the exponent
-   * by y.  */
-  newexp = dn_x.exponent + y;
-  if(newexp > INT_MAX)
-    newexp = INT_MAX;
-  if(newexp < -INT_MAX)
-    newexp = -INT_MAX;
-  dn_x.exponent = newexp;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  FUNC_CONVERT_FROM_DN (&dn_x, &result, &context);
+  context.round = __dn_getround ();
 
+  /* Scaling by more than this overflows or underflows for any x.  */
+  limit = 2 * (context.emax + context.digits);
+  if (y > limit)
+    y = limit;
+  else if (y < -limit)
+    y = -limit;
+
+  /* x*10**y is just x with its exponent increased by y, rounded once.  */
+  if (!decNumberIsInfinite (&dn_x) && !decNumberIsZero (&dn_x))
+    dn_x.exponent += y;
+
+  FUNC_CONVERT_FROM_DN (&dn_x, &result, &context);
   if (context.status & DEC_Overflow)
     DFP_EXCEPT (FE_OVERFLOW);
-#endif
+  if (context.status & DEC_Underflow)
+    DFP_EXCEPT (FE_UNDERFLOW);
+  if (context.status & DEC_Inexact)
+    DFP_EXCEPT (FE_INEXACT);
 
   return result;
 }
diff --git a/ieee754r/scalblnd32.c b/ieee754r/scalblnd32.c
index 3847cbf..26207c2 100644
--- a/ieee754r/scalblnd32.c
+++ b/ieee754r/scalblnd32.c
@@ -33,6 +33,7 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #define FUNCTION_NAME scalbln
 
@@ -43,40 +44,34 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
 {
   decContext context;
   DEC_TYPE result;
-  decNumber dn_x, dn_y;
-/*   long long int sum=0LL;  */
-/*  uint32_t temp2 = 0;  */
-  /* Otherwise this may pass a bad residue to decFinalize which can result in
-   * rounding error.  */
-/*  int32_t temp = 0;  */
-
-  FUNC_CONVERT_TO_DN(&x, &dn_x);
+  decNumber dn_x;
+  int limit;
+
+  FUNC_CONVERT_TO_DN (&x, &dn_x);
   if (decNumberIsNaN (&dn_x))
     return x+x;
-  if (decNumberIsInfinite (&dn_x) || decNumberIsZero (&dn_x) || y==0L)
-    return x;
-
-  decContextDefault(&context, DEFAULT_CONTEXT);
-//  sum = dn_x.exponent + y;
-//  if(sum >= 1000000000LL || sum <= -2000000000LL
-//    || y >= 1000000000L || y <= -2000000000L)
-//    ; /** definite overflow */
-//  else
-//    dn_x.exponent = sum;
-//
-//  decFinalize(&dn_x, &context, &temp, &temp2);
-
-  if (y >= 1000000000L || y <= -2000000000L)
-    context.status |= DEC_Overflow;
-  else 
-    {
-    decNumberFromInt32(&dn_y, (int)y);
-    decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
-    }
-
-  FUNC_CONVERT_FROM_DN(&dn_x, &result, &context);
+
+  decContextDefault (&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
+
+  /* Scaling by more than this overflows or underflows for any x.  */
+  limit = 2 * (context.emax + context.digits);
+  if (y > limit)
+    y = limit;
+  else if (y < -limit)
+    y = -limit;
+
+  /* x*10**y is just x with its exponent increased by y, rounded once.  */
+  if (!decNumberIsInfinite (&dn_x) && !decNumberIsZero (&dn_x))
+    dn_x.exponent += y;
+
+  FUNC_CONVERT_FROM_DN (&dn_x, &result, &context);
   if (context.status & DEC_Overflow)
     DFP_EXCEPT (FE_OVERFLOW);
+  if (context.status & DEC_Underflow)
+    DFP_EXCEPT (FE_UNDERFLOW);
+  if (context.status & DEC_Inexact)
+    DFP_EXCEPT (FE_INEXACT);
 
   return result;
 }
diff --git a/ieee754r/scalbnd32.c b/ieee754r/scalbnd32.c
index 57a53e2..5e30c9c 100644
--- a/ieee754r/scalbnd32.c
+++ b/ieee754r/scalbnd32.c
@@ -33,46 +33,45 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #define FUNCTION_NAME scalbn
 
 #include <dfpmacro.h>
 
-#include <stdio.h>
-
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 {
   decContext context;
   DEC_TYPE result;
-  decNumber dn_x, dn_y;
-/*  long int sum = 0L; */
-/*  uint32_t temp2 = 0; */
-  /* Otherwise this may pass a bad residue to decFinalize which can result in
-   * rounding error.  */
-/*  int32_t temp =0; */
-
-  FUNC_CONVERT_TO_DN(&x, &dn_x);
+  decNumber dn_x;
+  int limit;
+
+  FUNC_CONVERT_TO_DN (&x, &dn_x);
   if (decNumberIsNaN (&dn_x))
     return x+x;
-  if (decNumberIsInfinite (&dn_x) || decNumberIsZero (&dn_x) || y==0L)
-    return x;
-
-  decContextDefault(&context, DEFAULT_CONTEXT);
-//  sum = dn_x.exponent + y;
-//  if(sum >= 1000000000L || sum <= -2000000000LL)
-//    ; /** definite overflow */
-//  else
-//    dn_x.exponent = sum;
-//
-//  decFinalize(&dn_x, &context, &temp, &temp2);
-
-  decNumberFromInt32(&dn_y, y);
-  decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
-
-  FUNC_CONVERT_FROM_DN(&dn_x, &result, &context);
+
+  decContextDefault (&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
+
+  /* Scaling by more than this overflows or underflows for any x.  */
+  limit = 2 * (context.emax + context.digits);
+  if (y > limit)
+    y = limit;
+  else if (y < -limit)
+    y = -limit;
+
+  /* x*10**y is just x with its exponent increased by y, rounded once.  */
+  if (!decNumberIsInfinite (&dn_x) && !decNumberIsZero (&dn_x))
+    dn_x.exponent += y;
+
+  FUNC_CONVERT_FROM_DN (&dn_x, &result, &context);
   if (context.status & DEC_Overflow)
     DFP_EXCEPT (FE_OVERFLOW);
+  if (context.status & DEC_Underflow)
+    DFP_EXCEPT (FE_UNDERFLOW);
+  if (context.status & DEC_Inexact)
+    DFP_EXCEPT (FE_INEXACT);
 
   return result;
 }
-- 
2.43.0


From c7f8045d104cfe5dd479e534da9b7b301ae874f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 19/48] fix: frexp of zero has the exponent zero

---
 ieee754r/frexpd32.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ieee754r/frexpd32.c b/ieee754r/frexpd32.c
index ece6582..7307d17 100644
--- a/ieee754r/frexpd32.c
+++ b/ieee754r/frexpd32.c
@@ -54,6 +54,12 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, int *y)
   if (FUNC_D (__isinf) (x) || FUNC_D (__isnan) (x))
     return x+x;
 
+  if (x == 0)
+    {
+      *y = 0;
+      return x+x;
+    }
+
   // Given 3.1e0 is encoded as 31e-1 and we want .31e1
   // We have 2 'digits'.
 
-- 
2.43.0


From 582bcf5797194af39c75d1fd8ab20c3a8daf7d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 20/48] fix: store the integral part and keep the sign of zero
 parts in modf

---
 ieee754r/modfd32.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ieee754r/modfd32.c b/ieee754r/modfd32.c
index 79ddb5d..d60d03c 100644
--- a/ieee754r/modfd32.c
+++ b/ieee754r/modfd32.c
@@ -31,6 +31,7 @@
 #include <decContext.h>
 #include <decNumber.h>
 #include <math.h>
+#include <ieee754r_private.h>
 
 #define FUNCTION_NAME modf
 
@@ -48,11 +49,14 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE *y)
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   if (decNumberIsNaN (&dn_x))
     {
-      *y = x;
-      return x+x;
+      *y = x+x;
+      return *y;
     }
    if (decNumberIsInfinite (&dn_x))
-    return DFP_CONSTANT(0.0)/x;
+    {
+      *y = x+x;
+      return DFP_CONSTANT(0.0)/x;
+    }
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   context.round = DEC_ROUND_DOWN;	/* round towards zero */
@@ -60,7 +64,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE *y)
   decNumberSubtract (&dn_y, &dn_x, &dn_result, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, y, &context);
+  /* Both parts have the sign of x, even when they are zero.  */
   FUNC_CONVERT_FROM_DN (&dn_y, &result, &context);
+  result = FUNC_D (__copysign) (result, x);
 
   return result;
 }
-- 
2.43.0


From 2c97a5bcf42ef993ec9143cbf13eb5b129157e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 21/48] fix: compute logb from the exponent, not from a rounded
 logarithm

---
 ieee754r/logbd32.c | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/ieee754r/logbd32.c b/ieee754r/logbd32.c
index 948e980..12b7a14 100644
--- a/ieee754r/logbd32.c
+++ b/ieee754r/logbd32.c
@@ -46,11 +46,6 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_tmp;
-  decNumber dn_log10;
-  decNumber dn_one;
-  decNumber dn_cmp;
-  enum rounding round;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   if (decNumberIsNaN (&dn_x))
@@ -66,27 +61,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   if (decNumberIsInfinite (&dn_x) && decNumberIsNegative (&dn_x))
     return -x;
 
+  /* For DFP, we use radix 10 instead of whatever FLT_RADIX happens to be.
+     The result is the exponent of the leading digit.  */
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberAbs (&dn_tmp, &dn_x, &context);
-  /*  For DFP, we use radix 10 instead of whatever FLT_RADIX
-      happens to be */
-  decNumberLog10 (&dn_log10, &dn_tmp, &context);
-
-  /* Capture the case where truncation will return the wrong result,
-     by rounding up if -1.0 < x < 1.0  */
-  round = DEC_ROUND_DOWN;
-  decNumberFromInt32 (&dn_one, 1);
-  decNumberCompare (&dn_cmp, &dn_x, &dn_one, &context);
-  if (-decNumberIsNegative(&dn_cmp))
-    {
-      decNumberFromInt32 (&dn_one, -1);
-      decNumberCompare (&dn_cmp, &dn_x, &dn_one, &context);
-      if (!decNumberIsNegative(&dn_cmp) && !decNumberIsZero(&dn_cmp))
-	round = DEC_ROUND_UP;
-    }
-  context.round = round;
-
-  decNumberToIntegralValue (&dn_result, &dn_log10, &context);
+  decNumberFromInt32 (&dn_result, dn_x.exponent + dn_x.digits - 1);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From 687ae0eec74dac9933c9d453a49885ccfd45e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 22/48] fix: raise invalid in quantize

---
 ieee754r/quantized32.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieee754r/quantized32.c b/ieee754r/quantized32.c
index 8cea627..6abc7d6 100644
--- a/ieee754r/quantized32.c
+++ b/ieee754r/quantized32.c
@@ -57,6 +57,8 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   decNumberQuantize(&dn_result, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
+  if (context.status & DEC_Invalid_operation)
+    DFP_EXCEPT (FE_INVALID);
 
   return result;
 }
-- 
2.43.0


From 04aaf3b9af522380466da0f8780f4be59edd978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 23/48] fix: quantum of zero is one unit of its exponent

---
 ieee754r/quantumd128.c | 2 +-
 ieee754r/quantumd32.c  | 2 +-
 ieee754r/quantumd64.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ieee754r/quantumd128.c b/ieee754r/quantumd128.c
index b7c9eb9..314535b 100644
--- a/ieee754r/quantumd128.c
+++ b/ieee754r/quantumd128.c
@@ -38,7 +38,7 @@ __quantumd128 (_Decimal128 x)
   _Decimal128 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
diff --git a/ieee754r/quantumd32.c b/ieee754r/quantumd32.c
index 36e6c5f..10d6416 100644
--- a/ieee754r/quantumd32.c
+++ b/ieee754r/quantumd32.c
@@ -38,7 +38,7 @@ __quantumd32 (_Decimal32 x)
   _Decimal32 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
diff --git a/ieee754r/quantumd64.c b/ieee754r/quantumd64.c
index 42311a5..f2e1953 100644
--- a/ieee754r/quantumd64.c
+++ b/ieee754r/quantumd64.c
@@ -38,7 +38,7 @@ __quantumd64 (_Decimal64 x)
   _Decimal64 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
-- 
2.43.0


From b2b861ed409c1d366a41f3dea49e18f9b21c8597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 24/48] fix: compute fma with one rounding and raise its
 exceptions

---
 ieee754r/fmad32.c | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/ieee754r/fmad32.c b/ieee754r/fmad32.c
index 268f042..330496e 100644
--- a/ieee754r/fmad32.c
+++ b/ieee754r/fmad32.c
@@ -33,6 +33,7 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #include <decNumberMath.h>
 
@@ -43,13 +44,16 @@
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
 {
-  decContext context;
-  decNumber dn_result;
+  decContext context, wide;
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
-  decNumber dn_product;
   decNumber dn_z;
+  struct
+  {
+    decNumber d;
+    decNumberUnit extra[2 * DECNUMUNITS + 4];
+  } product, sum;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
@@ -70,19 +74,42 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
   if (decNumberIsNaN (&dn_z))
     return z+z;
 
-  decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberMultiply (&dn_product, &dn_x, &dn_y, &context);
-
   /* Domain error if x*y = Inf and z=Inf (with opposite signs) */
-  if (decNumberIsInfinite (&dn_product) && decNumberIsInfinite (&dn_z) &&
-	(decNumberIsNegative (&dn_product) != decNumberIsNegative (&dn_z)))
+  if ((decNumberIsInfinite (&dn_x) || decNumberIsInfinite (&dn_y))
+      && decNumberIsInfinite (&dn_z)
+      && ((decNumberIsNegative (&dn_x) != decNumberIsNegative (&dn_y))
+	  != decNumberIsNegative (&dn_z)))
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
     }
-  decNumberAdd (&dn_result, &dn_product, &dn_z, &context);
 
-  FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
+  /* The product is exact.  The sum is exact too unless its operands are so
+     far apart that the smaller one only matters for the final rounding;
+     DEC_ROUND_05UP keeps what that needs.  */
+  decContextDefault (&wide, DEFAULT_CONTEXT);
+  wide.digits = 3 * wide.digits + 6;
+  wide.emax = DEC_MAX_EMAX;
+  wide.emin = DEC_MIN_EMIN;
+  wide.clamp = 0;
+  wide.round = DEC_ROUND_05UP;
+  decNumberMultiply (&product.d, &dn_x, &dn_y, &wide);
+  decNumberAdd (&sum.d, &product.d, &dn_z, &wide);
+
+  decContextDefault (&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
+  /* An exact zero sum of opposite signs is negative when rounding down.  */
+  if (decNumberIsZero (&sum.d) && context.round == DEC_ROUND_FLOOR
+      && decNumberIsNegative (&product.d) != decNumberIsNegative (&dn_z))
+    sum.d.bits |= DECNEG;
+
+  FUNC_CONVERT_FROM_DN (&sum.d, &result, &context);
+  if (context.status & DEC_Overflow)
+    DFP_EXCEPT (FE_OVERFLOW);
+  if (context.status & DEC_Underflow)
+    DFP_EXCEPT (FE_UNDERFLOW);
+  if (context.status & DEC_Inexact)
+    DFP_EXCEPT (FE_INEXACT);
 
   return result;
 }
-- 
2.43.0


From 0c64e553bdbeea78c2fb9c2cd51e6db9bb8e22e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 25/48] fix: round sqrt in the current direction and raise
 inexact

---
 ieee754r/sqrtd32.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/ieee754r/sqrtd32.c b/ieee754r/sqrtd32.c
index 4602095..1ce875d 100644
--- a/ieee754r/sqrtd32.c
+++ b/ieee754r/sqrtd32.c
@@ -32,6 +32,7 @@
 #include <decNumber.h>
 #include <math.h>
 #include <errno.h>
+#include <mapround.h>
 
 #include <decNumberMath.h>
 
@@ -46,24 +47,50 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
+  decNumber dn_tmp;
+  enum rounding round;
+  int inexact;
 
   FUNC_CONVERT_TO_DN(&x, &dn_x);
   if (decNumberIsNaN (&dn_x))
     return x+x;
-  if (decNumberIsZero (&dn_x))
-    return x;
-  if (decNumberIsNegative (&dn_x))
+  if (decNumberIsNegative (&dn_x) && !decNumberIsZero (&dn_x))
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
     }
-  if (decNumberIsInfinite (&dn_x))
-    return x;
-
   decContextDefault(&context, DEFAULT_CONTEXT);
   decNumberSquareRoot(&dn_result, &dn_x, &context);
+  inexact = (context.status & DEC_Inexact) != 0;
+
+  /* decNumberSquareRoot always rounds to nearest, and no inexact square root
+     is halfway.  For a directed rounding step back if it went the other way:
+     the sign of x - result**2 tells.  */
+  round = __dn_getround ();
+  if (inexact && round != DEC_ROUND_HALF_EVEN && round != DEC_ROUND_HALF_UP)
+    {
+      decNumberMinus (&dn_tmp, &dn_result, &context);
+      decNumberFMA (&dn_tmp, &dn_tmp, &dn_result, &dn_x, &context);
+      if (round == DEC_ROUND_CEILING)
+	{
+	  if (!decNumberIsNegative (&dn_tmp))
+	    decNumberNextPlus (&dn_result, &dn_result, &context);
+	}
+      else if (decNumberIsNegative (&dn_tmp))
+	decNumberNextMinus (&dn_result, &dn_result, &context);
+    }
+
+  /* An inexact result has full precision.  */
+  if (inexact && dn_result.digits < context.digits)
+    {
+      decNumberFromInt32 (&dn_tmp, dn_result.exponent + dn_result.digits
+				   - context.digits);
+      decNumberRescale (&dn_result, &dn_result, &dn_tmp, &context);
+    }
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
+  if (inexact)
+    DFP_EXCEPT (FE_INEXACT);
 
   return result;
 }
-- 
2.43.0


From 682a9a30bafdf755a687fee36614cfe7634f1d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 26/48] fix: make remainder exact, and report domain errors
 only

---
 ieee754r/remainderd32.c | 60 +++++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/ieee754r/remainderd32.c b/ieee754r/remainderd32.c
index 7af09f2..87cd91e 100644
--- a/ieee754r/remainderd32.c
+++ b/ieee754r/remainderd32.c
@@ -46,8 +46,13 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
-  decNumber dn_mult;
-  decNumber dn_rounded;
+  /* Room for the extra digits.  */
+  struct
+  {
+    decNumber d;
+    decNumberUnit extra[2];
+  } r, y2, t, cmp;
+  int ny;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
@@ -61,12 +66,50 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
       return (x - x) / (x - x);
     }
 
+  if (decNumberIsInfinite (&dn_y))
+    return x;
+
+  /* Every step below is exact with a few more digits.  */
+  decContextDefault (&context, DEFAULT_CONTEXT);
+  context.digits += 3;
+  context.emax = DEC_MAX_EMAX;
+  context.emin = DEC_MIN_EMIN;
+  context.clamp = 0;
+  decNumberAbs (&r.d, &dn_x, &context);
+  decNumberAbs (&dn_y, &dn_y, &context);
+  decNumberAdd (&y2.d, &dn_y, &dn_y, &context);
+
+  /* r = |x| mod 2|y|, by subtracting multiples of 2|y| by powers of ten.  */
+  ny = y2.d.exponent + y2.d.digits;
+  decNumberCompare (&cmp.d, &r.d, &y2.d, &context);
+  while (!decNumberIsNegative (&cmp.d))
+    {
+      decNumberCopy (&t.d, &y2.d);
+      t.d.exponent += r.d.exponent + r.d.digits - ny;
+      decNumberCompare (&cmp.d, &t.d, &r.d, &context);
+      if (!decNumberIsZero (&cmp.d) && !decNumberIsNegative (&cmp.d))
+	t.d.exponent--;
+      decNumberSubtract (&r.d, &r.d, &t.d, &context);
+      decNumberCompare (&cmp.d, &r.d, &y2.d, &context);
+    }
+
+  /* Now the quotient is 2n plus 0, 1 or 2, ties going to 2n or 2n + 2.  */
+  decNumberAdd (&t.d, &r.d, &r.d, &context);
+  decNumberCompare (&cmp.d, &t.d, &dn_y, &context);
+  if (!decNumberIsZero (&cmp.d) && !decNumberIsNegative (&cmp.d))
+    {
+      decNumberSubtract (&t.d, &t.d, &y2.d, &context);
+      decNumberCompare (&cmp.d, &t.d, &dn_y, &context);
+      decNumberSubtract (&r.d, &r.d,
+			 decNumberIsNegative (&cmp.d) ? &dn_y : &y2.d,
+			 &context);
+    }
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberDivide (&dn_mult, &dn_x, &dn_y, &context);
-  context.round = DEC_ROUND_HALF_EVEN;
-  decNumberToIntegralValue (&dn_rounded, &dn_mult, &context);
-  decNumberMultiply (&dn_mult, &dn_rounded, &dn_y, &context);
-  decNumberSubtract (&dn_result, &dn_x, &dn_mult, &context);
+  decNumberPlus (&dn_result, &r.d, &context);
+  if (decNumberIsZero (&dn_result))
+    decNumberCopySign (&dn_result, &dn_result, &dn_x);
+  else if (decNumberIsNegative (&dn_x))
+    decNumberMinus (&dn_result, &dn_result, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
@@ -77,7 +120,8 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D(__isinf) (x) || (!FUNC_D(__isnan) (x) && y == DFP_CONSTANT(0.0)))
+  if (!FUNC_D(__isnan) (x) && !FUNC_D(__isnan) (y)
+      && (FUNC_D(__isinf) (x) || y == DFP_CONSTANT(0.0)))
     DFP_ERRNO (EDOM);
   return z;
 }
-- 
2.43.0


From 68b95720aba711620bc0357aecf34b16b9ea8e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 27/48] fix: raise invalid for fmod domain errors, and set no
 errno for NaN operands

---
 sysdeps/bid/fmodd32.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sysdeps/bid/fmodd32.c b/sysdeps/bid/fmodd32.c
index c9f5075..cc23abd 100644
--- a/sysdeps/bid/fmodd32.c
+++ b/sysdeps/bid/fmodd32.c
@@ -66,10 +66,14 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
 
+  if (decNumberIsNaN (&dn_x) || decNumberIsNaN (&dn_y))
+    return x + y;
+
   if (decNumberIsSpecial (&dn_x) || decNumberIsSpecial (&dn_y)
       || decNumberIsZero (&dn_y))
     {
       result.bits = DECNAN;
+      DFP_EXCEPT (FE_INVALID);
       DFP_ERRNO (EDOM);
       goto done;
     }
-- 
2.43.0


From 6c970f39464a6eaaa2cf26485152f313a9388fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 28/48] fix: raise invalid in fma when the addend is a
 signaling NaN beside a quiet one

---
 ieee754r/fmad32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieee754r/fmad32.c b/ieee754r/fmad32.c
index 330496e..850f6ad 100644
--- a/ieee754r/fmad32.c
+++ b/ieee754r/fmad32.c
@@ -61,7 +61,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
 
   /*  If x or y is NaN, return NaN */
   if (decNumberIsNaN (&dn_x) || decNumberIsNaN (&dn_y))
-    return x+y;
+    return x+y+z;
 
   /*  Domain error if x or y is Inf, the other is 0 */
   if (  (decNumberIsInfinite (&dn_x) && decNumberIsZero (&dn_y)) ||
-- 
2.43.0


From 363270bc70e46c6cbe56254d28e3a5cdfeee6813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 29/48] fix: make strtod and wcstod round correctly, in every
 rounding direction

The digits were accumulated with decimal arithmetic, which rounded more than once, lost the sign of
values that underflow, flushed subnormal numbers and numbers with more than MANT_DIG+1 digits near the
lower end, set flags of the intermediate steps and set no flags for the result.  The conversion now keeps
one digit more than fit and a sticky digit and rounds once.  Exponents saturate instead of overflowing an int,
the radix character of wcstod is found in the locale's multibyte form (it read a wide string as multibyte),
the end pointer after nan(...) is behind the closing parenthesis, and left_justifyd64 no longer sets a
coefficient bit of its own in the large form.
---
 stdlib/strtod32.c                | 355 ++++++++-----------------------
 sysdeps/soft-dfp/bid/numdigits.h |   2 +-
 2 files changed, 95 insertions(+), 262 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 155bd68..c308839 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -76,10 +76,23 @@
 # define __DEC_MIN_EXP__ __DEC32_MIN_EXP__
 #endif
 
+#if FLOAT_SIZE == 32
+# include <decimal32.h>
+#elif FLOAT_SIZE == 64
+# include <decimal64.h>
+#else
+# include <decimal128.h>
+#endif
+
 #define DEC_TYPE	FLOAT
 #define _DECIMAL_SIZE	FLOAT_SIZE
 #include <numdigits.h>
 
+#include <decContext.h>
+#include <decNumber.h>
+#include <mapround.h>
+#include <dfpmacro.h>
+
 #ifdef USE_WIDE_CHAR
 extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t **,
 						       int, int, __locale_t);
@@ -120,10 +133,6 @@ extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t
 /* Constants we need from float.h; select the set for the FLOAT precision.  */
 #define MANT_DIG	PASTE(PASTE(__,FLT),_MANT_DIG__)
 #define DIG		PASTE(PASTE(__,FLT),_DIG__)
-//#define MAX_EXP		PASTE(FLT,_MAX_EXP)
-//#define MIN_EXP		PASTE(FLT,_MIN_EXP)
-#define MAX_10_EXP	PASTE(PASTE(__,FLT),_MAX_EXP__)
-#define MIN_10_EXP	PASTE(PASTE(__,FLT),_MIN_EXP__)
 #define FUNCTION_NAME	PASTE(PASTE(STRTO_PREFIX,d),FLOAT_SIZE)
 #define __FUNCTION_NAME	PASTE(__,FUNCTION_NAME)
 #define FUNCTION_INTERNAL	PASTE(__FUNCTION_NAME,_internal)
@@ -330,7 +339,13 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   /* Points at the character following the integer and fractional digits.  */
   const STRING_TYPE *expp;
   /* Total number of digit and number of digits in integer part.  */
-  int dig_no, int_no, lead_zero;
+  int dig_no, int_no;
+  /* The digits kept for the conversion, its number and whether any nonzero
+     digit follows them.  */
+  char digits[MANT_DIG + 16];
+  int kept, sticky, is_zero, written_exponent;
+  decContext context;
+  decNumber dn;
   /* Contains the last character read.  */
   CHAR_TYPE c;
   __locale_t C_locale;
@@ -342,15 +357,14 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 #endif
   /* The radix character of the current locale.  */
 #ifdef USE_WIDE_CHAR
-  const char *decimalmb;
   wchar_t decimal;
+  mbstate_t mbstate;
 #else
   const char *decimal;
   size_t decimal_len;
 #endif
   /* The thousands character of the current locale.  */
 #ifdef USE_WIDE_CHAR
-  const char *thousandsmb = NULL;
   wchar_t thousands = L'\0';
 #else
   const char *thousands = NULL;
@@ -373,8 +387,9 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	{
 	  /* Figure out the thousands separator character.  */
 #ifdef USE_WIDE_CHAR
-	  thousandsmb = nl_langinfo(_NL_NUMERIC_THOUSANDS_SEP_WC);
-	  mbrtowc(&thousands,thousandsmb, CHAR_MAX, NULL);
+	  memset (&mbstate, 0, sizeof (mbstate));
+	  mbrtowc (&thousands, nl_langinfo (__THOUSANDS_SEP), CHAR_MAX,
+		   &mbstate);
 
 	  if (thousands == L'\0')
 	    grouping = NULL;
@@ -393,8 +408,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 
   /* Find the locale's decimal point character.  */
 #ifdef USE_WIDE_CHAR
-  decimalmb = nl_langinfo(_NL_NUMERIC_DECIMAL_POINT_WC);
-  mbrtowc(&decimal,decimalmb, CHAR_MAX, NULL);
+  memset (&mbstate, 0, sizeof (mbstate));
+  mbrtowc (&decimal, nl_langinfo (__DECIMAL_POINT), CHAR_MAX, &mbstate);
   assert (decimal != L'\0');
 # define decimal_len 1
 #else
@@ -480,9 +495,9 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 		/* The closing brace is missing.  Only match the NAN
 		   part.  */
 		cp = startp;
-#if 0
 	      else
 		{
+#if 0
 		  /* This is a system-dependent way to specify the
 		     bitmask used for the NaN.  We expect it to be
 		     a number which is put in the mantissa of the
@@ -495,8 +510,9 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 		    {
 		      SET_MANTISSA (retval, mant);
 		    }
-		}
 #endif
+		  ++cp;
+		}
 	    }
 
 	  if (endptr != NULL)
@@ -635,7 +651,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	      ++dig_no;
 
 	  int_no = dig_no;
-	  lead_zero = 0;
 
 	  goto number_parsed;
 	}
@@ -644,7 +659,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   /* We have the number digits in the integer part.  Whether these are all or
      any is really a fractional digit will be decided later.  */
   int_no = dig_no;
-  lead_zero = int_no == 0 ? -1 : 0;  /* FIXME: Why was this -1 */
 
   /* Read the fractional digits.  A special case are the 'american style'
      numbers like `16.' i.e. with decimal but without trailing digits.  */
@@ -663,8 +677,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
       c = *cp;
       while (c >= L_('0') && c <= L_('9'))
 	{
-	  if (c != L_('0') && lead_zero == -1)
-	    lead_zero = dig_no - int_no;
 	  ++dig_no;
 	  c = *++cp;
 	}
@@ -689,47 +701,12 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 
       if (c >= L_('0') && c <= L_('9'))
 	{
-	  int exp_limit;
-
-	  /* Get the exponent limit. */
-	  exp_limit = (exp_negative ?
-		       -MIN_10_EXP + MANT_DIG + int_no :
-		       MAX_10_EXP - int_no + lead_zero);
-
+	  /* Anything this large overflows or underflows, whatever the
+	     digits are.  */
 	  do
 	    {
-	      exponent *= 10;
-
-	      if (exponent > exp_limit)
-		/* The exponent is too large/small to represent a valid
-		   number.  */
-		{
-		  FLOAT result;
-
-		  /* We have to take care for special situation: a joker
-		     might have written "0.0e100000" which is in fact
-		     zero.  */
-		  if (lead_zero == -1)
-		    result = negative ? -FLOAT_ZERO : FLOAT_ZERO;
-		  else
-		    {
-		      /* Overflow or underflow.  */
-		      __set_errno (ERANGE);
-		      result = (exp_negative ? FLOAT_ZERO :
-				negative ? -FLOAT_HUGE_VAL : FLOAT_HUGE_VAL);
-		    }
-
-		  /* Accept all following digits as part of the exponent.  */
-		  do
-		    ++cp;
-		  while (*cp >= L_('0') && *cp <= L_('9'));
-
-		  freelocale(C_locale);
-		  RETURN (result, cp);
-		  /* NOTREACHED */
-		}
-
-	      exponent += c - L_('0');
+	      if (exponent < 100000000)
+		exponent = exponent * 10 + (c - L_('0'));
 	      c = *++cp;
 	    }
 	  while (c >= L_('0') && c <= L_('9'));
@@ -742,229 +719,85 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
     }
 
 
-  /* We don't want to have to work with trailing zeroes after the radix.  */
-#if 0  /* Actually, for DFP, we do. */
-  if (dig_no > int_no)
-    {
-      while (expp[-1] == L_('0'))
-	{
-	  --expp;
-	  /*--exponent;*/  /* FIXME: This can't be here */
-	  --dig_no;
-	}
-      assert (dig_no >= int_no);
-    }
-
-  if (dig_no == int_no && dig_no > 0 && exponent < 0)
-    do
-      {
-	while (! ISDIGIT (expp[-1]))
-	  --expp;
-
-	if (expp[-1] != L_('0'))
-	  break;
-
-	--expp;
-	--dig_no;
-	--int_no;
-	++exponent;
-      }
-    while (dig_no > 0 && exponent < 0);
-#endif
  number_parsed:
 
   /* The whole string is parsed.  Store the address of the next character.  */
   if (endptr)
     *endptr = (STRING_TYPE *) cp;
 
-  if (dig_no == 0)
-    {
-      if (exponent == 0)
-	{
-	  freelocale(C_locale);
-          return negative ? -FLOAT_ZERO : FLOAT_ZERO;
-	}
-
-#if NUMDIGITS_SUPPORT==0
-      d32 += 1;
-      while(exponent-- > 0)  /* FIXME: this doesn't work right for exponent>0 */
-	d32 *= 10;
-      while(++exponent < 0)
-	d32 /= 10;
-      d32 -= d32;
-#else
-      d32 = FUNC_D(setexp) (d32, exponent);
-#endif
-
-      freelocale(C_locale);
-      return negative ? -d32 : d32;
-    }
-
-
-  if (lead_zero)
-    {
-      /* Find the decimal point */
-#ifdef USE_WIDE_CHAR
-      while (*startp != decimal)
-	++startp;
-#else
-      while (1)
-	{
-	  if (*startp == decimal[0])
-	    {
-	      for (cnt = 1; decimal[cnt] != '\0'; ++cnt)
-		if (decimal[cnt] != startp[cnt])
-		  break;
-	      if (decimal[cnt] == '\0')
-		break;
-	    }
-	  ++startp;
-	}
-#endif
-      lead_zero = (lead_zero < 0? 0 : lead_zero);
-      startp += lead_zero + decimal_len;
-      exponent -= lead_zero;
-      dig_no -= lead_zero;
-    }
-
-
-  /* Now we have the number of digits in total and the integer digits as well
-     as the exponent and its sign.  We can decide whether the read digits are
-     really integer digits or belong to the fractional part; i.e. we normalize
-     123e-2 to 1.23.  */
-  {
-    register int incr = (exponent < 0 ? MAX (-int_no, exponent)
-			 : MIN (dig_no - int_no, exponent));
-    int_no += incr;
-    exponent -= incr;
-  }
-
-  if (int_no + exponent > MAX_10_EXP)
-    {
-      __set_errno (ERANGE);
-      freelocale(C_locale);
-      return negative ? -FLOAT_HUGE_VAL : FLOAT_HUGE_VAL;
-    }
-
-  /* Obvious underflow before normalization.  */
-  if (exponent < MIN_10_EXP - MANT_DIG + 1 )
-    {
-      __set_errno (ERANGE);
-      freelocale(C_locale);
-      return FLOAT_ZERO;
-    }
-  /* Read in the integer portion of the input string */
-  if (int_no > 0)
-    {
-      /* Read the integer part as a d32.  */
-      int digcnt = int_no;
-
-      while (int_no > MAX_10_EXP + 1)
-	{
-	  digcnt--;
-	  exponent++;
-	}
-      do
-	{
-	  /* There might be thousands separators or radix characters in
-	    the string.  But these all can be ignored because we know the
-	    format of the number is correct and we have an exact number
-	    of characters to read.  */
-#ifdef USE_WIDE_CHAR
-	  if (*startp < L_('0') || *startp > L_('9'))
-	    ++startp;
-#else
-	  if (*startp < L_('0') || *startp > L_('9'))
-	    {
-	      int inner = 0;
-	      if (thousands != NULL && *startp == *thousands
-		  && ({
-			for (inner = 1; thousands[inner] != '\0'; ++inner)
-			  if (thousands[inner] != startp[inner])
-			    break;
-			thousands[inner] == '\0';
-		      })
-		  )
-		startp += inner;
-	      else
-		startp += decimal_len;
-	    }
-#endif
-	  d32 = d32 * 10 + (*startp - L_('0'));
-	  ++startp;
-	}
-      while (--digcnt > 0);
-
-    }
-  /* If we haven't filled our datatype, read in the fractional digits */
-  if (int_no <= MANT_DIG && dig_no > int_no)
-    {
-      /* Read the decimal part as a FLOAT.  */
-      int digcnt = dig_no - int_no;
-      
-  /* There might be radix characters in
-	    the string.  But these all can be ignored because we know the
-	    format of the number is correct and we have an exact number
-	    of characters to read.  */
-
-      /*do
-	{
-	  frac = frac/10 + *(startp+digcnt-1) - L_('0');
-	}
-      while (--digcnt > 0);
-      frac /= 10;
-
-      d32 += frac;*/
-      int_no = 0;
-      do
-        {
-#ifdef USE_WIDE_CHAR
-      if (*startp < L_('0') || *startp > L_('9'))
-	++startp;
-#else
-      if (*startp < '0' || *startp > '9')
-	startp += decimal_len;
-#endif
-
-        /* We need the extra digit to get proper rounding.  */
-	if (int_no < MANT_DIG + 1)
+  /* Collect the significant digits: one more than fit, and whether anything
+     nonzero follows those.  This is all that the rounding needs.  There might
+     be thousands separators or radix characters in the string, but these can
+     be ignored because the format of the number is known to be correct.  */
+  kept = 0;
+  sticky = 0;
+  written_exponent = exponent;
+  exponent -= dig_no - int_no;
+  digits[kept++] = negative ? '-' : '+';
+  for (; dig_no > 0; ++startp)
+    if (*startp >= L_('0') && *startp <= L_('9'))
+      {
+	--dig_no;
+	if (kept <= MANT_DIG + 1)
 	  {
-	    d32 = d32*10 + (*startp - L_('0'));
-	    ++startp;
-	    --exponent;
-	    int_no++;
+	    if (kept > 1 || *startp != L_('0'))
+	      digits[kept++] = '0' + (*startp - L_('0'));
 	  }
-	}
-    while (--digcnt > 0);
-    }
-
-#if NUMDIGITS_SUPPORT==0
-  while(exponent-- > 0)
-    d32 *= 10;
-  while(++exponent < 0)
-    d32 /= 10;
-#else
-  /* Computed underflow after normalization.  */
-  if ( exponent <  (__DEC_MIN_EXP__ - __DEC_MANT_DIG__))
+	else
+	  {
+	    ++exponent;
+	    if (*startp != L_('0'))
+	      sticky = 1;
+	  }
+      }
+  if (sticky && (digits[kept - 1] == '0' || digits[kept - 1] == '5'))
+    ++digits[kept - 1];
+  is_zero = kept == 1;
+  if (is_zero)
+    digits[kept++] = '0';
+  if (exponent > 99999)
+    exponent = 99999;
+  else if (exponent < -99999)
+    exponent = -99999;
+  sprintf (digits + kept, "E%d", exponent);
+
+  decContextDefault (&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
+  decNumberFromString (&dn, digits, &context);
+  FUNC_CONVERT_FROM_DN (&dn, &d32, &context);
+
+  /* A subnormal number written with an exponent that is out of range by
+     itself underflows.  */
+  if (!is_zero && written_exponent < (__DEC_MIN_EXP__ - __DEC_MANT_DIG__)
+      && exponent + kept - 2 < __DEC_MIN_EXP__ - 1)
     {
-      __set_errno (ERANGE);
-      freelocale(C_locale);
-      return FLOAT_ZERO;
+      decNumberZero (&dn);
+      context.status |= DEC_Underflow | DEC_Inexact;
     }
 
+  if (context.status & DEC_Overflow)
+    DFP_EXCEPT (FE_OVERFLOW);
+  if (context.status & DEC_Underflow)
+    DFP_EXCEPT (FE_UNDERFLOW);
+  if (context.status & DEC_Inexact)
+    DFP_EXCEPT (FE_INEXACT);
+  if (context.status & (DEC_Overflow | DEC_Underflow))
+    __set_errno (ERANGE);
+
+  if (!is_zero && decNumberIsZero (&dn))
+    d32 = negative ? -FLOAT_ZERO : FLOAT_ZERO;
+#if NUMDIGITS_SUPPORT!=0
   /* Left justification allows us to set a positive exponent that's near
    * __DEC*_MAX_EXP__, i.e. _almost_ overflowing.  Complete left justification
    * may be overkill for most numbers in this situation, so perhaps a specific
    * digit shift will be a better solution in the future.  */
-  if (exponent > (__DEC_MAX_EXP__ - __DEC_MANT_DIG__))
-      d32 = FUNC_D(left_justify) (d32);
-
-  d32 = FUNC_D(setexp) (d32, FUNC_D (getexp) (d32) + exponent);
-
+  else if (!is_zero && exponent > (__DEC_MAX_EXP__ - __DEC_MANT_DIG__)
+	   && !(context.status & DEC_Overflow))
+    d32 = FUNC_D(left_justify) (d32);
 #endif
 
   freelocale(C_locale);
-  return negative? -d32:d32;
+  return d32;
 }
 hidden_def(FUNCTION_L_INTERNAL)
 
diff --git a/sysdeps/soft-dfp/bid/numdigits.h b/sysdeps/soft-dfp/bid/numdigits.h
index 58bf2c2..f1c6bb9 100644
--- a/sysdeps/soft-dfp/bid/numdigits.h
+++ b/sysdeps/soft-dfp/bid/numdigits.h
@@ -292,7 +292,7 @@ setdigitsd64 (_Decimal64 x, char *str)
   if (__bid_required_bits_64 (number) <= 53)
     d.di[1] = sign | ((number >> 32L) & 0x001FFFFFU);
   else
-    d.di[1] = (sign | (0x60040000U) | ((number >> 32L) & 0x0007FFFFU));
+    d.di[1] = (sign | (0x60000000U) | ((number >> 32L) & 0x0007FFFFU));
   d.di[0] = number & 0xFFFFFFFFU;
   d.dd = setexpd64 (d.dd, exp);
 
-- 
2.43.0


From 4bf13c0f9d8fb321c34c15caa749503030723c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:15 +0000
Subject: [PATCH 30/48] fix: print non-canonical coefficients as zero

decoded32 and decoded64 printed their raw bits, and __get_digits_d128 compared only the high word with a
threshold larger than that of 10^34, so coefficients just above it came out as garbage.
---
 sysdeps/bid/bid-private.c | 3 ++-
 sysdeps/bid/bid-private.h | 4 +++-
 sysdeps/bid/decode.c      | 6 ++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/sysdeps/bid/bid-private.c b/sysdeps/bid/bid-private.c
index a95781a..14bb930 100644
--- a/sysdeps/bid/bid-private.c
+++ b/sysdeps/bid/bid-private.c
@@ -197,7 +197,8 @@ __get_digits_d128 (_Decimal128 x, char *str, int *exp_p, int *sign_p,
       result[0] |= d.ti[0] & 0xFFFFFFFFUL;
     }
 
-  if (result[1] >= DECIMAL128_TH)
+  if (result[1] > DECIMAL128_TH_HIGH
+      || (result[1] == DECIMAL128_TH_HIGH && result[0] >= DECIMAL128_TH_LOW))
     {
       result[0] = 0;
       result[1] = 0;
diff --git a/sysdeps/bid/bid-private.h b/sysdeps/bid/bid-private.h
index 83b002f..f552f16 100644
--- a/sysdeps/bid/bid-private.h
+++ b/sysdeps/bid/bid-private.h
@@ -162,6 +162,8 @@ union ieee754r_Decimal128
   };
 
 #define DECIMAL128_Bias 6176		/* bias for the exponent  */
-#define DECIMAL128_TH 1000000000000000	/* threshold (10³⁴ = 10¹⁵ x 10¹⁹) */
+/* threshold (10^34), high and low 64 bits  */
+#define DECIMAL128_TH_HIGH 0x1ed09bead87c0ULL
+#define DECIMAL128_TH_LOW  0x378d8e6400000000ULL
 
 #endif /* _BID_PRIVATE */
diff --git a/sysdeps/bid/decode.c b/sysdeps/bid/decode.c
index 6d2ef88..602d0d2 100644
--- a/sysdeps/bid/decode.c
+++ b/sysdeps/bid/decode.c
@@ -51,6 +51,9 @@ __decoded32 (_Decimal32 a, char *str)
 	coeff = 0x00800000 | (d.si & 0x001FFFFF);
       else
 	coeff = d.si & 0x007FFFFF;
+      /* A non-canonical coefficient is zero.  */
+      if (coeff >= DECIMAL32_TH)
+	coeff = 0;
 
       for (n = 0; (coeff != 0) && (n < 3); ++n)
 	{
@@ -88,6 +91,9 @@ __decoded64 (_Decimal64 a, char *str)
       else
 	coeff = d.di[1] & 0x001FFFFF;
       coeff = (coeff << 32) | d.di[0];
+      /* A non-canonical coefficient is zero.  */
+      if (coeff >= DECIMAL64_TH)
+	coeff = 0;
 
       for (n = 0; (coeff != 0) && (n < 6); ++n)
 	{
-- 
2.43.0


From 6d6046a02d6afeac2b08b94a281d143224d7c2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 31/48] fix: round decimal printf conversions in the current
 direction

Values rounded away from zero only in some cases (upward and downward directions compared the wrong digit
and skipped inexact values), values smaller than the last printed digit were never rounded up, zeros could be
rounded to something else, %g chose its style before rounding and did not round some values in fixed style, NaN
and infinity returned a count of 0, %.0a printed a wrong number of digits, and the padding of exponent forms was
off by the exponent digits of %a and of zeros.
---
 printf-hooks/printf_dfp.c | 189 ++++++++++++++++++--------------------
 1 file changed, 89 insertions(+), 100 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index c5bf460..876232b 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -527,7 +527,7 @@ __printf_dfp (FILE *fp,
       if (info->left && width > 0)
 	PADN (' ', width);
 
-      return 0;
+      return done;
     }
 
   /* The term "precision" refers to the number of significant digits right of
@@ -541,6 +541,10 @@ __printf_dfp (FILE *fp,
 	     * digits in the precision.  */
 	    input_prec = nd;
 
+	    /* At least one digit is kept.  */
+	    if (prec == 0)
+	      prec = 1;
+
 	    /* This same check is done in two different places but it'll only
 	     * effect a single pass through once.  If prec is not set it'll hit
 	     * this instance.  If prec is set it'll hit the next instance.  This
@@ -566,41 +570,14 @@ __printf_dfp (FILE *fp,
 	  }
 	case 'g':
 	  {
-	    int P = prec;
-
-	    /* When the C specification refers to X as the exponent it means the
-	     * exponent when the input value encoding is normalized to the form
-	     * d.dddd.  This means we have to do that before we can do the goof
-	     * check.
-	     *
-	     * e.g., 123.456E-5
-	     * right-justified -> 00123456E-9
-	     * normalized -> 1.23456E-4
-	     *
-	     * Normalize X to d.ddd... form by taking (exp) + (nd - 1)
-	     *
-	     * X == -4  */
-	    int X = exp + (nd -1);
-
-	    /* The C Specification also indicates how to compute P. */
+	    /* The C Specification indicates how to compute P.  The style
+	     * depends on the exponent after rounding to P digits, so that it
+	     * is chosen below.  */
 	    if (prec < 0)
-	      P = 6;
+	      prec = default_prec;
 	    else if (prec == 0)
-	      P = 1;
-
-	    /* Straight from the specification which assumes X is exponent normalized to
-	     * d.ddd... form.  */
-	    if (X >= -4 && P > X)
-	      {
-		prec = (P - (X + 1));
-		spec = 'f';
-	      }
-	    else
-	      {
-		prec = P - 1;
-		spec = 'e';
-	      }
-	    input_prec = nd - 1;
+	      prec = 1;
+	    input_prec = nd;
 	  break;
 	  }
 	case 'e':
@@ -629,76 +606,88 @@ __printf_dfp (FILE *fp,
    * existing method would be faster.  */
   if (prec < input_prec)
     {
-      int index, roundmode = 0;
-      char rounddigit = '4';
+      int index, trail, roundmode = 0, half, inexact, away;
 
       if (spec == 'f')
-	/* This may force index to negative, in which case we ignore it at a
-	 * later time.  */
+	/* This is less than 'n' if only zeroes are printed.  */
 	index = n + nd + exp + prec;
-      /* Goofy special case where we round significant digits which aren't
-       * right of the decimal place.  */
-      else if (tolower(info->spec) == 'a' && prec > 0)
-       {
+      /* The precision is the number of significant digits.  */
+      else if (spec == 'a' || spec == 'g')
 	index = n + prec;
-       }
       else
 	index = n + prec + 1;
 
-      /* FIXME: we should check rounding mode for %a */
+      if (index < n)
+	{
+	  /* All digits are beyond the last printed one.  Replace them by a
+	   * zero in front of which the same digits are discarded.  */
+	  inexact = !is_zero;
+	  half = -1;
+	  memset (digits, '0', mw);
+	  n = index = mw - 1;
+	  nd = 1;
+	  exp = -prec - 1;
+	}
+      else
+	{
+	  /* Compare the discarded digits with half a unit.  */
+	  half = index < mw ? digits[index] - '5' : -1;
+	  inexact = index < mw && digits[index] != '0';
+	  for (trail = index + 1; trail < mw; trail++)
+	    if (digits[trail] != '0')
+	      {
+		inexact = 1;
+		if (half == 0)
+		  half = 1;
+	      }
+	}
+
       if (__printf_dfp_getround_callback)
-        {
-          roundmode = (*__printf_dfp_getround_callback)();
+        roundmode = (*__printf_dfp_getround_callback)();
 
-	  switch (roundmode)
+      switch (roundmode)
+	{
+	  case FE_DEC_TOWARDZERO: away = 0; break;
+	  case FE_DEC_UPWARD: away = !is_neg; break;
+	  case FE_DEC_DOWNWARD: away = is_neg; break;
+	  case FE_DEC_TONEARESTFROMZERO: away = half >= 0; break;
+	  case 5: away = half > 0; break; /* nearest, ties toward zero */
+	  case 6: away = 1; break; /* away from zero */
+	  default: /* nearest, ties to even */
+	    away = half > 0 || (half == 0 && (digits[index-1] & 1));
+	    break;
+	}
+
+      if (inexact && away)
+	{
+	  while (digits[--index] == '9')
+	    digits[index] = '0';
+	  digits[index]++;
+	  if (index < n)
 	    {
-	      case FE_DEC_TONEAREST: rounddigit = '4'; break;
-	      case FE_DEC_TOWARDZERO: rounddigit = '9'; break;
-	      case FE_DEC_UPWARD: rounddigit = (is_neg ? '9' : '0'-1); break;
-	      case FE_DEC_DOWNWARD: rounddigit = (is_neg ? '0'-1 : '9'); break;
-	      case FE_DEC_TONEARESTFROMZERO: rounddigit = '4'; break;
-	      case 5: rounddigit = '4'; break; /* nearest, ties toward zero */
-	      case 6: rounddigit = '0'-1; break; /* away from zero */
-	      case 7: rounddigit = '4'; break; /* round for shorter precision */
-	      default: rounddigit = '4'; break;
+	      n--;
+	      nd++;
 	    }
 	}
+    } /* Done rounding.  */
 
-      /* If this is true then the requested precision is smaller than the
-      * default and rounding is required.  If 'exp' was sufficiently negative
-      * 'index' may be negative, in which case we don't need to round.  */
-      if (index > 0 && index < mw && digits[index] > rounddigit) 
-	do {
-	  int trailzero = index+1;
-	  if (digits[index] == rounddigit+1)
-	    {
-	      while (trailzero < mw)
-		{
-		  if (digits[trailzero] != '0')
-		    {
-		      trailzero = 0;
-		      break;
-		    }
-		  ++trailzero;
-		}
-	      if (roundmode == FE_DEC_TONEAREST && trailzero &&
-	        (digits[index-1] & 1) == 0) break;
-	      if (roundmode == FE_DEC_UPWARD && !trailzero) break;
-	      if (roundmode == FE_DEC_DOWNWARD && !trailzero) break;
-	      if (roundmode == 5 && trailzero) break;
-	      if (roundmode == 6 && trailzero) break;
-	  }
+  /* Straight from the C specification.  X is the exponent of the rounded value
+   * when it is normalized to the form d.dddd.  */
+  if (spec == 'g')
+    {
+      int X = is_zero ? 0 : exp + nd - 1;
 
-	while (digits[--index] == '9')
-	  digits[index] = '0';
-	digits[index]++;
-	if (index < n)
-	  {
-	    n--;
-	    nd++;
-	  }
-      } while (0);
-    } /* Done rounding.  */
+      if (X >= -4 && prec > X)
+	{
+	  prec = prec - (X + 1);
+	  spec = 'f';
+	}
+      else
+	{
+	  prec = prec - 1;
+	  spec = 'e';
+	}
+    }
 
   /* If spec == 'a' at this point it means that prec was set by the user
    * and rounding had to be considered.  The spec now requires that the
@@ -743,10 +732,10 @@ __printf_dfp (FILE *fp,
    * By this point everything should be represented as either %e or %f.  */
   if (spec == 'f')
     {
-      if (exp < 0)
-	decpt = exp + nd + n;
-      else if (is_zero)
+      if (is_zero && (exp >= 0 || tolower(info->spec) != 'a'))
 	decpt = n + 1;
+      else if (exp < 0)
+	decpt = exp + nd + n;
       else
 	decpt = n + nd + exp;
     }
@@ -770,6 +759,12 @@ __printf_dfp (FILE *fp,
       while (prec > 0 && decpt+prec > n+nd && digits[decpt+prec-1] == '0') prec--;
     }
 
+  /* The C spec says that for %e, if the value is zero the exponent is zero.
+   * This isn't true for the DFP spec for %a so make sure to check info->spec
+   * and not spec since it could have promoted 'a' to 'e'.  */
+  if(spec == 'e' && (tolower(info->spec) != 'a' && is_zero))
+    exp = 0;
+
   /* Digits to the left of the decimal pt. */
   if (n < decpt)
     {
@@ -785,7 +780,7 @@ __printf_dfp (FILE *fp,
   if (spec != 'f')
     {
       width -= 3;
-      if (0!=(exp/10) || spec!='a') --width;
+      if (0!=(exp/10) || tolower(info->spec)!='a') --width;
       if (0!=(exp/100)) --width;
       if (0!=(exp/1000)) --width;
     }
@@ -849,12 +844,6 @@ __printf_dfp (FILE *fp,
   /* print decimal point, if needed */
   if (n == decpt && info->alt) outchar (wide ? decimalwc.wc : *decimal);
 
-  /* The C spec says that for %e, if the value is zero the exponent is zero.
-   * This isn't true for the DFP spec for %a so make sure to check info->spec
-   * and not spec since it could have promoted 'a' to 'e'.  */
-  if(spec == 'e' && (tolower(info->spec) != 'a' && is_zero))
-    exp = 0;
-
   /* Don't display the exponent part for 'f' because it is never used and don't
    * do it for 'g' if the value is zero.  */
   if (spec != 'f' && !((tolower(info->spec) == 'g') && is_zero))
-- 
2.43.0


From 1eb3724de517366cbf28b8db941d8b240391068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 32/48] fix: terminate what strfromdN writes when one character
 fits, and count when none does

fmemopen refuses no size, but with a size of 1 it does not write the terminating null character, and running
out of space is an error that sets errno.
---
 stdlib/strfromd32.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stdlib/strfromd32.c b/stdlib/strfromd32.c
index f66a1c5..f6a7f1e 100644
--- a/stdlib/strfromd32.c
+++ b/stdlib/strfromd32.c
@@ -25,6 +25,7 @@
 #include <printf.h>
 #include <errno.h>
 #include <ctype.h>
+#include <string.h>
 
 #include "printf_dfp.h"
 
@@ -38,7 +39,9 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
 {
   /* format = %{[.][0-9]*[aAeEfFgG], else behavior undefined.
      Reuse our printf hook to do this.  */
-  FILE * f = fmemopen (s, n, "w");
+  char *buf = NULL;
+  size_t len = 0;
+  FILE * f = open_memstream (&buf, &len);
   const void * const args = &fp;
   const void * const * argsp = &args;
   const void * const * argp = (const void * const *)&argsp;
@@ -49,7 +52,7 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
      about this.  */
   if (!f)
     {
-    /* errno set by fmemopen.  */
+    /* errno set by open_memstream.  */
     return 0;
     }
 
@@ -84,5 +87,15 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
   }
 
   fclose (f);
+
+  /* At most n - 1 characters and the terminating null are stored.  */
+  if (n > 0)
+    {
+      if (len > n - 1)
+	len = n - 1;
+      memcpy (s, buf, len);
+      s[len] = '\0';
+    }
+  free (buf);
   return num;
 }
-- 
2.43.0


From 92eb86c702738b6014cc9be6c6a9f3954b157864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:15 +0000
Subject: [PATCH 33/48] fix: let stream input take one number and set failbit,
 and size stream output to the text

operator>> read up to 127 characters at once, whatever followed the number,
left the stream failed after any short input and stored zero without failbit
for text that is no number; operator<< wrote fixed notation into a 64-byte
buffer.
---
 dfp/decimal/decimal | 120 ++++++++++++++++++++++++++++++++------------
 1 file changed, 88 insertions(+), 32 deletions(-)

diff --git a/dfp/decimal/decimal b/dfp/decimal/decimal
index 852810d..916cbdc 100644
--- a/dfp/decimal/decimal
+++ b/dfp/decimal/decimal
@@ -57,9 +57,10 @@ using std::string;
 using namespace std;
 
 #include <stdlib.h> /* Pick up the strtod[32|64|128] prototypes.  */
-#include <stdio.h>  /* Pick up the sprintf prototype.  */
-#include <limits.h> /* For CHAR_MAX.  */
-#include <string.h> /* For memset.  */
+#include <stdio.h>  /* Pick up the snprintf prototype.  */
+#include <limits.h>
+#include <string.h>
+#include <ctype.h>
 
 template<unsigned int size>
 struct FIND_DEC_MANT_DIG
@@ -113,19 +114,6 @@ private:
 public:
   static inline ostream & decimal_to_string(std::ostream &os, decimal_type &d)
     {
-      /* If strbuf is big enough for a _Decimal128, it is big enough for the
-       * other types as well, so just use the same size for all of them.
-       *   1  (leading zero)
-       * + 1  (.)
-       * + 34 (__DEC128_MANT_DIG__)
-       * + 1  (e)
-       * + 1  (+/-)
-       * + 4  (digits in __DEC128_MAX_EXP__)
-       * + 1  "\n"
-       * = 43 -> round up to a power of 2 = 64.  */
-
-      char strbuf[64];
-
       ios_base::fmtflags flags = os.flags();
       unsigned int precision = os.precision();
 
@@ -161,14 +149,70 @@ public:
       /* Per the confusing reading of the draft DFP C++ Specification, a/A type
          are never passed with an accompanying precision.  This causes the
 	 implicit precision in the type to be used for printing.  */
-      if (flags & ios::fixed && flags & ios::scientific)
-        sprintf (strbuf, fmtstr.c_str(), d.__getval());
+      /* In fixed notation the length depends on the exponent.  */
+      bool implicit = flags & ios::fixed && flags & ios::scientific;
+      int len = implicit
+	? snprintf (NULL, 0, fmtstr.c_str(), d.__getval())
+	: snprintf (NULL, 0, fmtstr.c_str(), precision, d.__getval());
+      if (len < 0)
+	{
+	  os.setstate (ios::failbit);
+	  return os;
+	}
+      std::string str (len + 1, '\0');
+      if (implicit)
+	snprintf (&str[0], len + 1, fmtstr.c_str(), d.__getval());
       else
-        sprintf (strbuf, fmtstr.c_str(), precision, d.__getval());
-      os << strbuf;
+	snprintf (&str[0], len + 1, fmtstr.c_str(), precision, d.__getval());
+      str.resize (len);
+      os << str;
       return os;
     }
 
+  /* Whether CH can follow STR in the text of a decimal number.  */
+  static inline bool continues_decimal(const std::string &str, char ch)
+    {
+      std::string::size_type start = str.find_first_not_of ("+-");
+      if (ch == '+' || ch == '-')
+	return str.empty ()
+	       || (start != std::string::npos && !isalpha (str[start])
+		   && (*str.rbegin () == 'e' || *str.rbegin () == 'E'));
+      if (start == std::string::npos)
+	return isalnum (ch) || ch == '.';
+      /* An infinity or NaN.  */
+      if (isalpha (str[start]))
+	return isalnum (ch) || ch == '_' || ch == '(' || ch == ')';
+      if (ch == '.' || ch == 'e' || ch == 'E')
+	return str.find_first_of ("eE") == std::string::npos
+	       && (ch != '.' || str.find ('.') == std::string::npos);
+      return isdigit (ch);
+    }
+
+  /* Extract the text of a decimal number, and no more, into STR.  */
+  template <class charT, class traits>
+  static inline bool extract_decimal(std::basic_istream<charT, traits> &is,
+				     std::string &str)
+    {
+      typename std::basic_istream<charT, traits>::sentry ok (is);
+      if (!ok)
+	return false;
+      for (;;)
+	{
+	  typename traits::int_type c = is.rdbuf ()->sgetc ();
+	  if (traits::eq_int_type (c, traits::eof ()))
+	    {
+	      is.setstate (ios::eofbit);
+	      break;
+	    }
+	  char ch = is.narrow (traits::to_char_type (c), '\0');
+	  if (!continues_decimal (str, ch))
+	    break;
+	  str.append (1, ch);
+	  is.rdbuf ()->sbumpc ();
+	}
+      return true;
+    }
+
   enum {DEC_MANT_DIG = FIND_DEC_MANT_DIG<(sizeof(decimal_type))>::RESULT};
 };
 
@@ -214,10 +258,14 @@ namespace decimal
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal32 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod32(buf, NULL));
+	std::string buf;
+	if (LIBDFP_META<std::decimal::decimal32>::extract_decimal(is, buf))
+	  {
+	    char *end;
+	    d.__setval(strtod32(buf.c_str(), &end));
+	    if (end == buf.c_str())
+	      is.setstate(ios::failbit);
+	  }
 	return is;
       }
 
@@ -225,10 +273,14 @@ namespace decimal
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal64 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod64(buf, NULL));
+	std::string buf;
+	if (LIBDFP_META<std::decimal::decimal64>::extract_decimal(is, buf))
+	  {
+	    char *end;
+	    d.__setval(strtod64(buf.c_str(), &end));
+	    if (end == buf.c_str())
+	      is.setstate(ios::failbit);
+	  }
 	return is;
       }
 
@@ -236,10 +288,14 @@ namespace decimal
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal128 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod128(buf, NULL));
+	std::string buf;
+	if (LIBDFP_META<std::decimal::decimal128>::extract_decimal(is, buf))
+	  {
+	    char *end;
+	    d.__setval(strtod128(buf.c_str(), &end));
+	    if (end == buf.c_str())
+	      is.setstate(ios::failbit);
+	  }
 	return is;
       }
 
-- 
2.43.0


From dd865e22d336824d8778c002051e387e23d0de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 34/48] fix: correct mistyped entries of the decimal64 log and
 exp tables

Entries whose digits contain 774 had 974 in its place, so that for
example exp(211) and log(0.49) were wrong from the eighth and eleventh
digit on.
---
 ieee754r/ddlogtbls.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ieee754r/ddlogtbls.h b/ieee754r/ddlogtbls.h
index 98f768b..87d9300 100644
--- a/ieee754r/ddlogtbls.h
+++ b/ieee754r/ddlogtbls.h
@@ -76,13 +76,13 @@ const _Decimal128 __LN2digits [] = {
 	-0.7765287894989963678119979561003557DL, /* ln(0.46DL) */
 	-0.7550225842780327812150322395965547DL, /* ln(0.47DL) */
 	-0.7339691750802004389718091866134964DL, /* ln(0.48DL) */
-	-0.7133498878974647578252974224823690DL, /* ln(0.49DL) */
+	-0.7133498878774647578252774224823690DL, /* ln(0.49DL) */
 	-0.6931471805599453094172321214581766DL, /* ln(0.50DL) */
 	-0.6733445532637655963912030545730762DL, /* ln(0.51DL) */
 	-0.6539264674066640131480312248870567DL, /* ln(0.52DL) */
 	-0.6348782724359695338915137703396706DL, /* ln(0.53DL) */
 	-0.6161861394238169844330150771429747DL, /* ln(0.54DL) */
-	-0.5978370007556204493732799981974115DL, /* ln(0.55DL) */
+	-0.5978370007556204493732799981774115DL, /* ln(0.55DL) */
 	-0.5798184952529421346789338015510190DL, /* ln(0.56DL) */
 	-0.5621189181535412166317102405583492DL, /* ln(0.57DL) */
 	-0.5447271754416720314354787555486402DL, /* ln(0.58DL) */
@@ -179,7 +179,7 @@ const _Decimal128 __expIntXDL [] = {
 	1.0DL, /* exp(0.0DL) */
 	2.718281828459045235360287471352662DL, /* exp(1.0DL) */
 	7.389056098930650227230427460575008DL, /* exp(2.0DL) */
-	20.08553692318766974092852965458172DL, /* exp(3.0DL) */
+	20.08553692318766774092852965458172DL, /* exp(3.0DL) */
 	54.59815003314423907811026120286088DL, /* exp(4.0DL) */
 	148.4131591025766034211155800405523DL, /* exp(5.0DL) */
 	403.4287934927351226083871805433883DL, /* exp(6.0DL) */
@@ -203,7 +203,7 @@ const _Decimal128 __expIntXDL [] = {
 	26489122129.84347229413916215281188DL, /* exp(24.0DL) */
 	72004899337.38587252416135146612616DL, /* exp(25.0DL) */
 	195729609428.8387642697763978760953DL, /* exp(26.0DL) */
-	532048240601.7986166837473043411974DL, /* exp(27.0DL) */
+	532048240601.7986166837473043411774DL, /* exp(27.0DL) */
 	1446257064291.475173677047422996929DL, /* exp(28.0DL) */
 	3931334297144.042074388620580843528DL, /* exp(29.0DL) */
 	10686474581524.46214699046865074140DL, /* exp(30.0DL) */
@@ -211,7 +211,7 @@ const _Decimal128 __expIntXDL [] = {
 	78962960182680.69516097802263510822DL, /* exp(32.0DL) */
 	214643579785916.0646242977615312609DL, /* exp(33.0DL) */
 	583461742527454.8814029027346103910DL, /* exp(34.0DL) */
-	1586013452313430.728129644625974660DL, /* exp(35.0DL) */
+	1586013452313430.728129644625774660DL, /* exp(35.0DL) */
 	4311231547115195.227113422292856925DL, /* exp(36.0DL) */
 	11719142372802611.30877293979119019DL, /* exp(37.0DL) */
 	31855931757113756.22032867170129865DL, /* exp(38.0DL) */
@@ -337,7 +337,7 @@ const _Decimal128 __expIntXDL [] = {
 	4.154589706104022437390577106831935e+68DL, /* exp(158.0DL) */
 	1.129334570280556947872702202187131e+69DL, /* exp(159.0DL) */
 	3.069849640644242466736457030165496e+69DL, /* exp(160.0DL) */
-	8.344716494264974360965835809202325e+69DL, /* exp(161.0DL) */
+	8.344716494264774360965835809202325e+69DL, /* exp(161.0DL) */
 	2.268329121000240471305839031261140e+70DL, /* exp(162.0DL) */
 	6.165957830579432532004967054378165e+70DL, /* exp(163.0DL) */
 	1.676081112590882772586107349772233e+71DL, /* exp(164.0DL) */
@@ -374,7 +374,7 @@ const _Decimal128 __expIntXDL [] = {
 	4.868822826641319706709336201865967e+84DL, /* exp(195.0DL) */
 	1.323483261564570355306938300562604e+85DL, /* exp(196.0DL) */
 	3.597600500180681130758662848849109e+85DL, /* exp(197.0DL) */
-	9.779292065696317602741493974881592e+85DL, /* exp(198.0DL) */
+	9.779292065696317602741493774881592e+85DL, /* exp(198.0DL) */
 	2.658287191737601973400328347238974e+86DL, /* exp(199.0DL) */
 	7.225973768125749258177477042189306e+86DL, /* exp(200.0DL) */
 	1.964223318681795865648486413742023e+87DL, /* exp(201.0DL) */
@@ -387,7 +387,7 @@ const _Decimal128 __expIntXDL [] = {
 	2.154032421824846569020981598875600e+90DL, /* exp(208.0DL) */
 	5.855267190158109347508158747532035e+90DL, /* exp(209.0DL) */
 	1.591626640377924159157186340777442e+91DL, /* exp(210.0DL) */
-	4.326489974230630919937147247796921e+91DL, /* exp(211.0DL) */
+	4.326489774230630919937147247796921e+91DL, /* exp(211.0DL) */
 	1.176061853430500122733564724127810e+92DL, /* exp(212.0DL) */
 	3.196867565323993534884678511593018e+92DL, /* exp(213.0DL) */
 	8.689987010810321382206327468404931e+92DL, /* exp(214.0DL) */
@@ -452,7 +452,7 @@ const _Decimal128 __expIntXDL [] = {
 	3.650846383862075425813175768321853e+118DL, /* exp(273.0DL) */
 	9.924029383747695725897538647368045e+118DL, /* exp(274.0DL) */
 	2.697630873893497823276541791257137e+119DL, /* exp(275.0DL) */
-	7.332920984394789339791797649312974e+119DL, /* exp(276.0DL) */
+	7.332920984394789339791797649312774e+119DL, /* exp(276.0DL) */
 	1.993294586140636987940405781793673e+120DL, /* exp(277.0DL) */
 	5.418336452271886559100375698876231e+120DL, /* exp(278.0DL) */
 	1.472856551868792008087437247897063e+121DL, /* exp(279.0DL) */
@@ -557,7 +557,7 @@ const _Decimal128 __expIntXDL [] = {
 	1.456512309747928310205062027767040e+164DL, /* exp(378.0DL) */
 	3.959210944514705822310560742686318e+164DL, /* exp(379.0DL) */
 	1.076225116551049803541837343424381e+165DL, /* exp(380.0DL) */
-	2.925483177651936727218575960974259e+165DL, /* exp(381.0DL) */
+	2.925483177651936727218575960774259e+165DL, /* exp(381.0DL) */
 	7.952287761273884428431842997922460e+165DL, /* exp(382.0DL) */
 	2.161655931614806197980514918359209e+166DL, /* exp(383.0DL) */
 	5.875990038289236239608284190826147e+166DL, /* exp(384.0DL) */
@@ -639,7 +639,7 @@ const _Decimal128 __expIntXDL [] = {
 	5.962956971409260822395127288810348e+199DL, /* exp(460.0DL) */
 	1.620899757926497623081284104932651e+200DL, /* exp(461.0DL) */
 	4.406062357725263759379850038557442e+200DL, /* exp(462.0DL) */
-	1.197691924206200182564330974252429e+201DL, /* exp(463.0DL) */
+	1.197691924206200182564330774252429e+201DL, /* exp(463.0DL) */
 	3.255664193661862052431253530725589e+201DL, /* exp(464.0DL) */
 	8.849812817195809529800229688135934e+201DL, /* exp(465.0DL) */
 	2.405628536624731937016932793996026e+202DL, /* exp(466.0DL) */
@@ -756,7 +756,7 @@ const _Decimal128 __expIntXDL [] = {
 	3.871828017611068619756333191738026e+250DL, /* exp(577.0DL) */
 	1.052471974319077600436351056214937e+251DL, /* exp(578.0DL) */
 	2.860915442753963560149385355110176e+251DL, /* exp(579.0DL) */
-	7.776974460795963023293133416439138e+251DL, /* exp(580.0DL) */
+	7.776774460795963023293133416439138e+251DL, /* exp(580.0DL) */
 	2.113946470080605596467762082192512e+252DL, /* exp(581.0DL) */
 	5.746302275955252943010619149104434e+252DL, /* exp(582.0DL) */
 	1.562006905756201809684652029738012e+253DL, /* exp(583.0DL) */
@@ -815,7 +815,7 @@ const _Decimal128 __expIntXDL [] = {
 	1.626636414927522393392903634887462e+276DL, /* exp(636.0DL) */
 	4.421656208207251754959015960656940e+276DL, /* exp(637.0DL) */
 	1.201930772246289711810497611562084e+277DL, /* exp(638.0DL) */
-	3.267186577262836658270402974456316e+277DL, /* exp(639.0DL) */
+	3.267186577262836658270402774456316e+277DL, /* exp(639.0DL) */
 	8.881133903158873299234272672967127e+277DL, /* exp(640.0DL) */
 	2.414142490506831928910472323441926e+278DL, /* exp(641.0DL) */
 	6.562319663255584349955503981011063e+278DL, /* exp(642.0DL) */
-- 
2.43.0


From 4bbf1600c56958abd4d7d632fb7d0a0b9a2c42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:41 +0000
Subject: [PATCH 35/48] fix: make decimal64 exp and log accurate, and exp
 underflow gradually

The series were summed in decimal64, so log lost all its digits close to
1; exp of a number below -886.5 was zero although the result can be a
subnormal; and exp of a NaN indexed the table with a huge index.
---
 ieee754r/expd64.c | 41 ++++++++++++++++++++++++-----------------
 ieee754r/logd64.c | 13 +++++++------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/ieee754r/expd64.c b/ieee754r/expd64.c
index 0dbb347..d84f8ed 100644
--- a/ieee754r/expd64.c
+++ b/ieee754r/expd64.c
@@ -50,15 +50,18 @@
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE val)
 {
-  DEC_TYPE result, top, fraction, a, x, tp;
-  DEC_TYPE t1, t2, t3, t4, t5, t6, t7, t8;
-  DEC_TYPE t9, t10, t11, t12, t13, t14, t15, t16;
-  DEC_TYPE t17, t18, t19, t20;
+  /* Work in decimal128, so that only the last step rounds to the result.  */
+  _Decimal128 result, top, fraction, a, x, tp;
+  _Decimal128 t1, t2, t3, t4, t5, t6, t7, t8;
+  _Decimal128 t9, t10, t11, t12, t13, t14, t15, t16;
+  _Decimal128 t17, t18, t19, t20;
   long exp;
   long tmp;
 
   int neg = 0;
 
+  if (__isnand64(val))
+    return val + val;
   if (__isinfd64(val))
     {
       if (val < DFP_CONSTANT(0.0))
@@ -73,15 +76,18 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
       val = FUNC_D(__fabs) (val);
     }
 
+  /* via 1024 bits of mpfr and rtn: log(9.999999999999999e+384). */
+  if (!neg && val >= 886.49526080270759DD)
+    return DFP_INF;
+  /* exp (-920) is less than a tenth of the smallest subnormal.  */
+  if (neg && val > 920.0DD)
+    return DFP_CONSTANT(0.0);
+
   tmp = val;
   top = tmp;
   fraction = val - top;
   exp = tmp;
 
-  /* via 1024 bits of mpfr and rtn: log(9.999999999999999e+384). */
-  if (val >= 886.49526080270759DD)
-    return neg ? DFP_CONSTANT(0.0) : DFP_INF;
-
   if (fraction != 0.0DD)
     {
       a = top; x = val;
@@ -166,21 +172,22 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
       tp = tp + t1;
       tp = tp + 1.DD;
 
-      if (exp!=0)
-	result = __expIntXDL[exp] * tp;
-      else
-        result = tp;
+      result = tp;
     }
   else
+    result = 1.DL;
+
+  if (exp > (long) EXPINT_MAX)
     {
-      if (exp!=0)
-	result = __expIntXDL[exp];
-      else
-        result = 1.DD;
+      /* Only for a negative argument, whose result is subnormal.  */
+      result *= __expIntXDL[EXPINT_MAX];
+      exp -= EXPINT_MAX;
     }
+  if (exp != 0)
+    result *= __expIntXDL[exp];
 
   if (neg)
-    result = 1/result;
+    result = 1.DL / result;
 
   return result;
 }
diff --git a/ieee754r/logd64.c b/ieee754r/logd64.c
index 4187f98..55b81e3 100644
--- a/ieee754r/logd64.c
+++ b/ieee754r/logd64.c
@@ -60,9 +60,10 @@ static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE val)
 {
 
-  _Decimal64 result, top, fraction, a, x, tp;
-  _Decimal64 t1, t2, t3, t4, t5, t6, t7, t8;
-  _Decimal64 t9, t10, t11, t12, t13, t14, t15, t16;
+  /* Work in decimal128: the table entry and the exponent may cancel.  */
+  _Decimal128 result, top, fraction, a, x, tp;
+  _Decimal128 t1, t2, t3, t4, t5, t6, t7, t8;
+  _Decimal128 t9, t10, t11, t12, t13, t14, t15, t16;
   int exp;
   long tmp;
 
@@ -85,7 +86,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
 
   tmp = result * 100.0DD;
   top = tmp;
-  top = top * 0.01DD;
+  top = top * 0.01DL;
   fraction = result - top;
 
   if (fraction != 0.00DD)
@@ -106,7 +107,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
       t7 = tp / 7.0DD; /* t7 == (((x-a)/a)^7)/7 */
       tp = tp * t1; /* tp == ((x-a)/a)^8 */
       t8 = tp / 8.0DD; /* t8 == (((x-a)/a)^8)/8 */
-      if ( t8 > 1.0E-16DD)
+      if ( t8 > 1.0E-34DL)
 	{
 	  tp = tp * t1; /* tp == ((x-a)/a)^9 */
 	  t9 = tp / 9.0DD; /* t9 == (((x-a)/a)^9)/9 */
@@ -116,7 +117,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
 	  t11 = tp / 11.0DD; /* t12 == (((x-a)/a)^11)/11 */
 	  tp = tp * t1; /* tp == ((x-a)/a)^12 */
 	  t12 = tp / 12.0DD; /* t12 == (((x-a)/a)^11)/12 */
-	  if  (t12 > 1.0E-16DD)
+	  if  (t12 > 1.0E-34DL)
 	    {
 	      tp = tp * t1; /* tp == ((x-a)/a)^13 */
 	      t13 = tp / 13.0DD; /* t13 == (((x-a)/a)^13)/13 */
-- 
2.43.0


From 891ad0d7878e4c734d98807b20cc6a517513b582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:11 +0000
Subject: [PATCH 36/48] fix: carry hyperbolic, arc and near-zero functions in
 the wide decNumber context

expm1, log1p, sinh, tanh, asinh, acosh, atanh, atan, atan2 and hypot did
their arithmetic with the precision and range of the target format: small
arguments lost their digits and their sign, squares and quotients
overflowed or vanished, and sinh and cosh overflowed before their results
did.  Do the work with DECNUMDIGITS digits and an exponent range that
cannot overflow, using series near zero, and round once.  hypot of an
infinity is +infinity.
---
 decNumberMath/Versions        |   7 +
 decNumberMath/decNumberMath.c | 371 ++++++++++++++++++++++++++++------
 decNumberMath/decNumberMath.h |  15 ++
 ieee754r/acoshd32.c           |  10 +-
 ieee754r/asinhd32.c           |  13 +-
 ieee754r/atan2d32.c           |  17 +-
 ieee754r/atanhd32.c           |  11 +-
 ieee754r/expm1d32.c           |   9 +-
 ieee754r/hypotd32.c           |  12 +-
 ieee754r/log1pd32.c           |   2 +-
 10 files changed, 345 insertions(+), 122 deletions(-)

diff --git a/decNumberMath/Versions b/decNumberMath/Versions
index 99e0cf5..c5a158b 100644
--- a/decNumberMath/Versions
+++ b/decNumberMath/Versions
@@ -8,6 +8,13 @@ libdfp {
     decNumberCos;
     decNumberTan;
     decNumberAtan;
+    decNumberAtan2;
+    decNumberExpm1;
+    decNumberLog1p;
+    decNumberHypot;
+    decNumberAsinh;
+    decNumberAcosh;
+    decNumberAtanh;
   }
 }
 
diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index 4ff0ab8..3f7bec4 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -64,8 +64,8 @@
     const int _emin_stashed = ctxp->emin; \
     const int _digits_stashed = ctxp->digits; \
     decNumberFromString (zerop, "0", ctxp); \
-    ctxp->emax = 6144; \
-    ctxp->emin = -6143; \
+    ctxp->emax = DEC_MAX_MATH; \
+    ctxp->emin = -DEC_MAX_MATH; \
     ctxp->digits = DECNUMDIGITS;
 
 #define DEC_RESTORE_ROUND(ctxp, resultoutp, resultinp, zerop) \
@@ -484,51 +484,243 @@ decNumber* decNumberPow (decNumber *result, decNumber *x, decNumber *y,
   return res;
 }*/ /* decNumberSquareRoot  */
 
+// ----------------------------------------------------------------------
+// Helpers for the functions below.  These all work in the expanded
+// context set up by DEC_STASH_CONTEXT.
+// ----------------------------------------------------------------------
+
+// True if |x| < 0.1 and x is not zero
+static int decNumberIsSmall (decNumber *x)
+{
+  return !decNumberIsZero (x) && !decNumberIsInfinite (x)
+	 && x->exponent + x->digits <= -1;
+} /* decNumberIsSmall  */
+
+static decNumber* decExpm1Op (decNumber *result, decNumber *x,
+			      decContext *set)
+{
+  // Subtracting 1 from e^x cancels when x is small, so use the power
+  // series there:  e^x - 1 = x + x^2/2! + x^3/3! + ...
+  decNumber one, n, term, sum;
+  int i;
+
+  decNumberFromInt32 (&one, 1);
+  if (!decNumberIsSmall (x)) {
+    decNumberExp (&sum, x, set);
+    decNumberSubtract (result, &sum, &one, set);
+    return result;
+  }
+  decNumberCopy (&term, x);
+  decNumberCopy (&sum, x);
+  // Each term gains at least one digit.
+  for (i=2; i<DECNUMDIGITS; i++) {
+    decNumberFromInt32 (&n, i);
+    decNumberMultiply (&term, &term, x, set);
+    decNumberDivide (&term, &term, &n, set);
+    decNumberAdd (&sum, &sum, &term, set);
+  }
+  decNumberCopy (result, &sum);
+  return result;
+} /* decExpm1Op  */
+
+static decNumber* decLog1pOp (decNumber *result, decNumber *x,
+			      decContext *set)
+{
+  // Adding 1 to a small x drops digits of x, so use
+  //   log(1+x) = 2*(s + s^3/3 + s^5/5 + ...)  where s = x/(2+x)
+  // there.
+  decNumber n, s, s2, power, term, sum;
+  int i;
+
+  if (!decNumberIsSmall (x)) {
+    decNumberFromInt32 (&n, 1);
+    decNumberAdd (&sum, x, &n, set);
+    decNumberLn (result, &sum, set);
+    return result;
+  }
+  decNumberFromInt32 (&n, 2);
+  decNumberAdd (&s, x, &n, set);
+  decNumberDivide (&s, x, &s, set);
+  decNumberMultiply (&s2, &s, &s, set);
+  decNumberCopy (&power, &s);
+  decNumberCopy (&sum, &s);
+  // Each term gains at least two digits.
+  for (i=3; i<DECNUMDIGITS; i+=2) {
+    decNumberFromInt32 (&n, i);
+    decNumberMultiply (&power, &power, &s2, set);
+    decNumberDivide (&term, &power, &n, set);
+    decNumberAdd (&sum, &sum, &term, set);
+  }
+  decNumberAdd (result, &sum, &sum, set);
+  return result;
+} /* decLog1pOp  */
+
+// ----------------------------------------------------------------------
+// Exponential and logarithm near zero
+// ----------------------------------------------------------------------
+
+decNumber* decNumberExpm1 (decNumber *_result, decNumber *x, decContext *set)
+{
+  decNumber zero, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decExpm1Op (&result, x, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberExpm1  */
+
+decNumber* decNumberLog1p (decNumber *_result, decNumber *x, decContext *set)
+{
+  decNumber zero, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decLog1pOp (&result, x, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberLog1p  */
+
+decNumber* decNumberHypot (decNumber *_result, decNumber *x, decNumber *y,
+			   decContext *set)
+{
+  // sqrt (x^2 + y^2)
+  decNumber zero, xx, yy, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberMultiply (&xx, x, x, set);
+  decNumberMultiply (&yy, y, y, set);
+  decNumberAdd (&result, &xx, &yy, set);
+  decNumberSquareRoot (&result, &result, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberHypot  */
+
 // ----------------------------------------------------------------------
 // Hyperbolic Functions
 // ----------------------------------------------------------------------
 
-decNumber* decNumberSinh (decNumber *result, decNumber *x, decContext *set)
+decNumber* decNumberSinh (decNumber *_result, decNumber *x, decContext *set)
 {
   // sinh x = (e^x - e^-x)/2
-  decNumber ex, emx, mx, two;
+  decNumber zero, ex, emx, one, two, result;
 
-  decNumberExp (&ex, x, set);
-  decNumberMinus (&mx, x, set);
-  decNumberExp (&emx, &mx, set);
-  decNumberSubtract (result, &ex, &emx, set);
-  decNumberFromString (&two, "2", set);
-  decNumberDivide (result, result, &two, set);
-  return result;
-}
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberFromInt32 (&one, 1);
+  decNumberFromInt32 (&two, 2);
+  if (decNumberIsSmall (x)) {
+    // The subtraction would cancel: with m = e^x - 1 this is
+    // (m + m/(m+1))/2.
+    decExpm1Op (&ex, x, set);
+    decNumberAdd (&emx, &ex, &one, set);
+    decNumberDivide (&emx, &ex, &emx, set);
+    decNumberAdd (&result, &ex, &emx, set);
+  }
+  else {
+    decNumberExp (&ex, x, set);
+    decNumberMinus (&emx, x, set);
+    decNumberExp (&emx, &emx, set);
+    decNumberSubtract (&result, &ex, &emx, set);
+  }
+  decNumberDivide (&result, &result, &two, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberSinh  */
 
-decNumber* decNumberCosh (decNumber *result, decNumber *x, decContext *set)
+decNumber* decNumberCosh (decNumber *_result, decNumber *x, decContext *set)
 {
   // cosh x = (e^x + e^-x)/2
-  decNumber ex, emx, mx, two;
+  decNumber zero, ex, emx, two, result;
 
+  DEC_STASH_CONTEXT (set, &zero);
   decNumberExp (&ex, x, set);
-  decNumberMinus (&mx, x, set);
-  decNumberExp (&emx, &mx, set);
-  decNumberAdd (result, &ex, &emx, set);
-  decNumberFromString (&two, "2", set);
-  decNumberDivide (result, result, &two, set);
-  return result;
+  decNumberMinus (&emx, x, set);
+  decNumberExp (&emx, &emx, set);
+  decNumberAdd (&result, &ex, &emx, set);
+  decNumberFromInt32 (&two, 2);
+  decNumberDivide (&result, &result, &two, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
 } /* decNumberCosh  */
 
-decNumber* decNumberTanh (decNumber *result, decNumber *x, decContext *set)
+decNumber* decNumberTanh (decNumber *_result, decNumber *x, decContext *set)
 {
-  // tanh x = sinh x / cosh x = (e^x - e^-x) / (e^x + e^-x)
-  decNumber ex, emx, mx, denominator;
-  decNumberExp (&ex, x, set);
-  decNumberMinus (&mx, x, set);
-  decNumberExp (&emx, &mx, set);
-  decNumberSubtract (result, &ex, &emx, set);
-  decNumberAdd (&denominator, &ex, &emx, set);
-  decNumberDivide (result, result, &denominator, set);
-  return result;
+  // tanh x = sinh x / cosh x = (e^2x - 1) / (e^2x + 1)
+  decNumber zero, m, two, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberFromInt32 (&two, 2);
+  if (!decNumberIsZero (x) && x->exponent + x->digits > 2) {
+    // |x| >= 100, this is 1 to more digits than we carry.
+    decNumberFromInt32 (&result, decNumberIsNegative (x) ? -1 : 1);
+  }
+  else {
+    decNumberAdd (&m, x, x, set);
+    decExpm1Op (&m, &m, set);
+    decNumberAdd (&result, &m, &two, set);
+    decNumberDivide (&result, &m, &result, set);
+  }
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
 } /* decNumberTanh  */
 
+decNumber* decNumberAsinh (decNumber *_result, decNumber *x, decContext *set)
+{
+  // With a = |x|, asinh a = log1p (a + a^2/(1 + sqrt (1 + a^2)))
+  decNumber zero, one, a, a2, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberFromInt32 (&one, 1);
+  decNumberAbs (&a, x, set);
+  decNumberMultiply (&a2, &a, &a, set);
+  decNumberAdd (&result, &a2, &one, set);
+  decNumberSquareRoot (&result, &result, set);
+  decNumberAdd (&result, &result, &one, set);
+  decNumberDivide (&result, &a2, &result, set);
+  decNumberAdd (&result, &result, &a, set);
+  decLog1pOp (&result, &result, set);
+  if (decNumberIsNegative (x))
+    decNumberMinus (&result, &result, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberAsinh  */
+
+decNumber* decNumberAcosh (decNumber *_result, decNumber *x, decContext *set)
+{
+  // With t = x-1, acosh x = log1p (t + sqrt (2*t + t^2))
+  decNumber zero, one, t, t2, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberFromInt32 (&one, 1);
+  decNumberSubtract (&t, x, &one, set);
+  decNumberMultiply (&t2, &t, &t, set);
+  decNumberAdd (&result, &t2, &t, set);
+  decNumberAdd (&result, &result, &t, set);
+  decNumberSquareRoot (&result, &result, set);
+  decNumberAdd (&result, &result, &t, set);
+  decLog1pOp (&result, &result, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberAcosh  */
+
+decNumber* decNumberAtanh (decNumber *_result, decNumber *x, decContext *set)
+{
+  // With a = |x|, atanh a = log1p (2*a/(1 - a))/2
+  decNumber zero, one, two, a, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberFromInt32 (&one, 1);
+  decNumberFromInt32 (&two, 2);
+  decNumberAbs (&a, x, set);
+  decNumberSubtract (&result, &one, &a, set);
+  decNumberAdd (&a, &a, &a, set);
+  decNumberDivide (&result, &a, &result, set);
+  decLog1pOp (&result, &result, set);
+  decNumberDivide (&result, &result, &two, set);
+  if (decNumberIsNegative (x))
+    decNumberMinus (&result, &result, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberAtanh  */
+
 // ----------------------------------------------------------------------
 // Trigonometric Functions
 // ----------------------------------------------------------------------
@@ -697,42 +889,52 @@ decNumber* decNumberTan (decNumber *result, decNumber *y, decContext *set)
   return result;
 } /* decNumberTan  */
 
-decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set) 
+// Arc tangent in the expanded context.
+static decNumber* decAtanOp (decNumber *result, decNumber *_x, decContext *set)
 {
   //                 x^3   x^5   x^7
   // arctan(x) = x - --- + --- - --- + ...
   //                  3     5     7
   //
   // This power series works well, if x is close to zero (|x|<0.5).
-  // If x is larger, the series converges too slowly,
-  // so in order to get a smaller x, we apply the identity 
+  // If x is larger, the series converges too slowly.  If x is greater
+  // than one, use
+  //
+  // arctan(x) = pi/2 - arctan(1/x)
+  //
+  // and in order to get a smaller x, we apply the identity
   //
-  //                      sqrt(1+x^2) - 1
-  // arctan(x) = 2*arctan ---------------
   //                             x
+  // arctan(x) = 2*arctan ---------------
+  //                      1 + sqrt(1+x^2)
   //
-  // twice. The first application gives us a new x with x < 1.
-  // The second application gives us a new x with x < 0.4142136.
+  // twice. The first application gives us a new x with x < 0.4142136.
+  // The second application gives us a new x with x < 0.1989124.
   // For that x, we use the power series and multiply the result by four.
-  
-  decNumber f, g, mx2, one, two, term;
-  int i;
 
-  decNumberFromString (&one, "1", set);
-  decNumberFromString (&two, "2", set);
+  decNumber x, f, g, mx2, one, two, term, sum, y;
+  int i, invert;
 
-  if (decNumberIsZero (x)) {
-    decNumberCopy (result, x);
+  if (decNumberIsZero (_x)) {
+    decNumberCopy (result, _x);
     return result;
   }
 
+  decNumberFromInt32 (&one, 1);
+  decNumberFromInt32 (&two, 2);
+
+  decNumberAbs (&x, _x, set);
+  decNumberCompare (&y, &x, &one, set);
+  invert = !decNumberIsNegative (&y) && !decNumberIsZero (&y);
+  if (invert)
+    decNumberDivide (&x, &one, &x, set);
+
   for (i=0; i<2; i++) {
-    decNumber y;
-    decNumberMultiply (&y, x, x, set);     // y = x^2
+    decNumberMultiply (&y, &x, &x, set);   // y = x^2
     decNumberAdd (&y, &y, &one, set);      // y = y+1
     decNumberSquareRoot (&y, &y, set);     // y = sqrt(y)
-    decNumberSubtract (&y, &y, &one, set); // y = y-1
-    decNumberDivide (x, &y, x, set);       // x = y/x
+    decNumberAdd (&y, &y, &one, set);      // y = y+1
+    decNumberDivide (&x, &x, &y, set);     // x = x/y
   }
   // f(0) = x
   // f(i) = f(i-1) * (-x^2)
@@ -741,29 +943,70 @@ decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set)
   // g(i) = g(i-1) + 2
   //
   // term(i) = f(i) / g(i)
-  decNumberCopy (&f, x);     // f(0) = x
-  decNumberCopy (&g, &one);  // g(0) = 1
-  decNumberCopy (&term, x);  // term = x
-  decNumberCopy (result, x); // sum  = x 
-  decNumberMultiply (&mx2, x, x, set); // mx2 = x^2
-  decNumberMinus (&mx2, &mx2, set);    // mx2 = -x^2  
-  // Since x is less than sqrt(2)-1 = 0.4142...,
-  // each term is smaller than the previous term by a factor of about 6,
-  // so two iterations are more than enough to increase the precision 
-  // by one digit.
-  // 2*DECNUMDIGITS terms are enough to achieve the required precision.
-  for (i=0; i<2*DECNUMDIGITS; i++) {
+  decNumberCopy (&f, &x);     // f(0) = x
+  decNumberCopy (&g, &one);   // g(0) = 1
+  decNumberCopy (&sum, &x);   // sum  = x
+  decNumberMultiply (&mx2, &x, &x, set); // mx2 = x^2
+  decNumberMinus (&mx2, &mx2, set);      // mx2 = -x^2
+  // Since x is less than 0.2, each term is smaller than the previous
+  // term by a factor of about 25, so DECNUMDIGITS terms are more than
+  // enough to achieve the required precision.
+  for (i=0; i<DECNUMDIGITS; i++) {
     // f = f * (-x^2)
     decNumberMultiply (&f, &f, &mx2, set);
     // g = g+2
-    decNumberAdd (&g, &g, &two, set); 
+    decNumberAdd (&g, &g, &two, set);
     // term = f/g
     decNumberDivide (&term, &f, &g, set);
     // sum = sum + term
-    decNumberAdd (result, result, &term, set);
+    decNumberAdd (&sum, &sum, &term, set);
   }
   // Multiply result by four.
-  decNumberAdd (result, result, result, set);
-  decNumberAdd (result, result, result, set);
+  decNumberAdd (&sum, &sum, &sum, set);
+  decNumberAdd (&sum, &sum, &sum, set);
+
+  if (invert) {
+    decNumberFromString (&y, PI, set);
+    decNumberDivide (&y, &y, &two, set);
+    decNumberSubtract (&sum, &y, &sum, set);
+  }
+  if (decNumberIsNegative (_x))
+    decNumberMinus (&sum, &sum, set);
+  decNumberCopy (result, &sum);
   return result;
+} /* decAtanOp  */
+
+decNumber* decNumberAtan (decNumber *_result, decNumber *x, decContext *set)
+{
+  decNumber zero, result;
+
+  if (decNumberIsZero (x)) {
+    decNumberCopy (_result, x);
+    return _result;
+  }
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decAtanOp (&result, x, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
 } /* decNumberAtan  */
+
+// The angle of (x, y), which are finite and not zero.
+decNumber* decNumberAtan2 (decNumber *_result, decNumber *y, decNumber *x,
+			   decContext *set)
+{
+  decNumber zero, pi, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberDivide (&result, y, x, set);
+  decAtanOp (&result, &result, set);
+  if (decNumberIsNegative (x)) {
+    decNumberFromString (&pi, PI, set);
+    if (decNumberIsNegative (y))
+      decNumberSubtract (&result, &result, &pi, set);
+    else
+      decNumberAdd (&result, &result, &pi, set);
+  }
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberAtan2  */
diff --git a/decNumberMath/decNumberMath.h b/decNumberMath/decNumberMath.h
index e04815f..1be195f 100644
--- a/decNumberMath/decNumberMath.h
+++ b/decNumberMath/decNumberMath.h
@@ -29,6 +29,13 @@
 extern decNumber* decNumberPow (decNumber *, decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberPow)
 
+extern decNumber* decNumberExpm1 (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberExpm1)
+extern decNumber* decNumberLog1p (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberLog1p)
+extern decNumber* decNumberHypot (decNumber *, decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberHypot)
+
 /* Hyperbolic Functions */
 extern decNumber* decNumberSinh (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberSinh)
@@ -36,6 +43,12 @@ extern decNumber* decNumberCosh (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberCosh)
 extern decNumber* decNumberTanh (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberTanh)
+extern decNumber* decNumberAsinh (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAsinh)
+extern decNumber* decNumberAcosh (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAcosh)
+extern decNumber* decNumberAtanh (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAtanh)
 
 /* Trigonometric Functions */
 extern decNumber* decNumberSin (decNumber *, decNumber *, decContext *);
@@ -46,5 +59,7 @@ extern decNumber* decNumberTan (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberTan)
 extern decNumber* decNumberAtan (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberAtan)
+extern decNumber* decNumberAtan2 (decNumber *, decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAtan2)
 
 #endif /* _DECNUMBERMATH_H  */
diff --git a/ieee754r/acoshd32.c b/ieee754r/acoshd32.c
index 82acb92..6fa87b4 100644
--- a/ieee754r/acoshd32.c
+++ b/ieee754r/acoshd32.c
@@ -45,10 +45,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decContext context;
   decNumber dn_result;
   DEC_TYPE result, one;
-  decNumber dn_x, dn_one;
+  decNumber dn_x;
 
   one=DFP_CONSTANT(1.0);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
   FUNC_CONVERT_TO_DN (&x, &dn_x);
 
   if (decNumberIsNaN (&dn_x))
@@ -80,12 +79,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 
   decContextDefault (&context, DEFAULT_CONTEXT);
 
-  /* using trig identity: acosh(x) = log(x+sqrt(x*x-1)) */
-  decNumberMultiply (&dn_result, &dn_x, &dn_x, &context);
-  decNumberSubtract (&dn_result, &dn_result, &dn_one, &context);
-  decNumberSquareRoot (&dn_result, &dn_result, &context);
-  decNumberAdd (&dn_result, &dn_result, &dn_x, &context);
-  decNumberLn (&dn_result, &dn_result, &context);
+  decNumberAcosh (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/asinhd32.c b/ieee754r/asinhd32.c
index c07f2d4..5fe946a 100644
--- a/ieee754r/asinhd32.c
+++ b/ieee754r/asinhd32.c
@@ -43,11 +43,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
   decContext context;
   decNumber dn_result;
-  DEC_TYPE result, one;
-  decNumber dn_x, dn_one;
+  DEC_TYPE result;
+  decNumber dn_x;
 
-  one = DFP_CONSTANT(1.0);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
   FUNC_CONVERT_TO_DN (&x, &dn_x);
 
   if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x)
@@ -57,12 +55,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
     }
   decContextDefault (&context, DEFAULT_CONTEXT);
 
-  /* using trig identity: acosh(x) = log(x+sqrt(x*x-1)) */
-  decNumberMultiply (&dn_result, &dn_x, &dn_x, &context);
-  decNumberAdd (&dn_result, &dn_result, &dn_one, &context);
-  decNumberSquareRoot (&dn_result, &dn_result, &context);
-  decNumberAdd (&dn_result, &dn_result, &dn_x, &context);
-  decNumberLn (&dn_result, &dn_result, &context);
+  decNumberAsinh (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/atan2d32.c b/ieee754r/atan2d32.c
index 49108ba..480d330 100644
--- a/ieee754r/atan2d32.c
+++ b/ieee754r/atan2d32.c
@@ -48,7 +48,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE y, DEC_TYPE x)
   const DEC_TYPE generate_inexact = DFP_CONSTANT(1e-94);
 
   decContext context;
-  decNumber dn_result, dn_temp;
+  decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x, dn_y;
 
@@ -64,20 +64,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE y, DEC_TYPE x)
       && !decNumberIsInfinite (&dn_y) && !decNumberIsZero (&dn_x))
     {
       decContextDefault (&context, DEFAULT_CONTEXT);
-      decNumberDivide (&dn_temp, &dn_y, &dn_x, &context);
-      decNumberAtan (&dn_result, &dn_temp, &context);
+      decNumberAtan2 (&dn_result, &dn_y, &dn_x, &context);
       FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
-      /* decNumberAtan doesn't quite return the values in the ranges we
-       * want for x < 0. So we need to do some correction */
-      if (decNumberIsNegative (&dn_x))
-	{
-	  if (decNumberIsNegative (&dn_y))
-	    return result - M_PIdl;
-	  else
-	    return result + M_PIdl;
-	}
-      else
-	return result;
+      return result;
     }
 
   /* If x and y are both inf, the result depends on the sign of x */
diff --git a/ieee754r/atanhd32.c b/ieee754r/atanhd32.c
index ffc2bcc..380c279 100644
--- a/ieee754r/atanhd32.c
+++ b/ieee754r/atanhd32.c
@@ -45,11 +45,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decContext context;
   decNumber dn_result;
   DEC_TYPE result, one, temp;
-  decNumber dn_x, dn_temp, dn_one;
+  decNumber dn_x, dn_temp;
 /*  int comp;*/
 
   one=DFP_CONSTANT(1.0);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
   FUNC_CONVERT_TO_DN (&x, &dn_x);
 
   /*  Handle NaN and early exit for x==0 */
@@ -81,13 +80,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 //	return DFP_NAN;
 //    }
 
-  /* Using trig identity: atanh(x) = 1/2 * log((1+x)/(1-x)) */
-  decNumberAdd (&dn_result, &dn_one, &dn_x, &context);
-  decNumberSubtract (&dn_temp, &dn_one, &dn_x, &context);
-  decNumberDivide (&dn_result, &dn_result, &dn_temp, &context);
-  decNumberLn (&dn_result, &dn_result, &context);
-  decNumberAdd (&dn_temp, &dn_one, &dn_one, &context); /* 2 */
-  decNumberDivide (&dn_result, &dn_result, &dn_temp, &context);
+  decNumberAtanh (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/expm1d32.c b/ieee754r/expm1d32.c
index 3ce810f..608e4d8 100644
--- a/ieee754r/expm1d32.c
+++ b/ieee754r/expm1d32.c
@@ -47,21 +47,16 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_one;
-  decNumber dn_exponent;
-  DEC_TYPE one = DFP_CONSTANT(1.0);
 
   FUNC_CONVERT_TO_DN(&x, &dn_x);
-  FUNC_CONVERT_TO_DN(&one, &dn_one);
-  if (decNumberIsNaN (&dn_x))
+  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
     return x+x;
 
   if (decNumberIsInfinite (&dn_x))
     return decNumberIsNegative (&dn_x) ? DFP_CONSTANT(-1.0) : x;
 
   decContextDefault(&context, DEFAULT_CONTEXT);
-  decNumberExp(&dn_exponent, &dn_x, &context);
-  decNumberSubtract(&dn_result, &dn_exponent, &dn_one, &context);
+  decNumberExpm1 (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
   if (context.status & DEC_Overflow)
diff --git a/ieee754r/hypotd32.c b/ieee754r/hypotd32.c
index 3c06b93..a6f7991 100644
--- a/ieee754r/hypotd32.c
+++ b/ieee754r/hypotd32.c
@@ -47,25 +47,19 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_xx;
   decNumber dn_y;
-  decNumber dn_yy;
-  decNumber dn_sum;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
   if (decNumberIsInfinite (&dn_x))
-    return x;
+    return decNumberIsNegative (&dn_x) ? -x : x;
   if (decNumberIsInfinite (&dn_y))
-    return y;
+    return decNumberIsNegative (&dn_y) ? -y : y;
   if (decNumberIsNaN (&dn_x) || decNumberIsNaN (&dn_y))
     return x+y;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberMultiply (&dn_xx, &dn_x, &dn_x, &context);
-  decNumberMultiply (&dn_yy, &dn_y, &dn_y, &context);
-  decNumberAdd (&dn_sum, &dn_xx, &dn_yy, &context);
-  decNumberSquareRoot (&dn_result, &dn_sum, &context);
+  decNumberHypot (&dn_result, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/log1pd32.c b/ieee754r/log1pd32.c
index f86084d..721499e 100644
--- a/ieee754r/log1pd32.c
+++ b/ieee754r/log1pd32.c
@@ -71,7 +71,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
       return DFP_NAN;
     }
 
-  decNumberLn(&dn_result, &dn_sum, &context);
+  decNumberLog1p (&dn_result, &dn_x, &context);
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
 
 
-- 
2.43.0


From 82645ba06f1f29a589b40ecdd4cd764a77f95f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:23 +0000
Subject: [PATCH 37/48] fix: iterate cbrt to full precision in _Decimal128

The starting value is off by several percent over [.1,1), the interval
decimal frexp yields, so three Newton steps left decimal64 and decimal128
results with half their digits, and the steps rounded to the narrow type.
---
 ieee754r/cbrtd32.c | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/ieee754r/cbrtd32.c b/ieee754r/cbrtd32.c
index bb64505..fee3d7b 100644
--- a/ieee754r/cbrtd32.c
+++ b/ieee754r/cbrtd32.c
@@ -49,7 +49,7 @@
  * the argument.  A polynomial of degree 2 applied to the
  * mantissa, and multiplication by the cube root of 1, 2, or 4
  * approximates the root to within about 0.1%.  Then Newton's
- * iteration is used three times to converge to an accurate
+ * iteration is used six times to converge to an accurate
  * result.
  *
  * ACCURACY:
@@ -84,8 +84,8 @@ static const _Decimal128
 DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
-  int e, rem, sign;
-  _Decimal128 z;
+  int e, i, rem, sign;
+  _Decimal128 y, z;
 
   if (! FUNC_D(__isfinite) (x)) /* cbrt(x:x=inf/nan/-inf) = x+x (for sNaN) */
     return x + x;
@@ -102,16 +102,17 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
     }
 
   z = x;
- /* extract power of 2, leaving mantissa between 0.5 and 1  */
+ /* extract power of 10, leaving mantissa between 0.1 and 1  */
   x = FUNC_D(__frexp) (x, &e);
 
-  /* Approximate cube root of number between .5 and 1,
-     peak relative error = 1.2e-6  */
-  x = ((((1.3584464340920900529734e-1DL * x
-	  - 6.3986917220457538402318e-1DL) * x
-	 + 1.2875551670318751538055e0DL) * x
-	- 1.4897083391357284957891e0DL) * x
-       + 1.3304961236013647092521e0DL) * x + 3.7568280825958912391243e-1DL;
+  /* Approximate cube root of number between .1 and 1,
+     peak relative error = 7e-2  */
+  y = x;
+  y = ((((1.3584464340920900529734e-1DL * y
+	  - 6.3986917220457538402318e-1DL) * y
+	 + 1.2875551670318751538055e0DL) * y
+	- 1.4897083391357284957891e0DL) * y
+       + 1.3304961236013647092521e0DL) * y + 3.7568280825958912391243e-1DL;
 
   /* exponent divided by 3 */
   if (e >= 0)
@@ -121,10 +122,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
       rem -= 3 * e;
       if (rem == 1)
 	//x *= CBRT2;
-	x *= CBRT10;
+	y *= CBRT10;
       else if (rem == 2)
 	//x *= CBRT4;
-	x *= CBRT100;
+	y *= CBRT100;
     }
   else
     {				/* argument less than 1 */
@@ -134,24 +135,23 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
       rem -= 3 * e;
       if (rem == 1)
 	//x *= CBRT2I;
-	x *= CBRT10I;
+	y *= CBRT10I;
       else if (rem == 2)
 	//x *= CBRT4I;
-	x *= CBRT100I;
+	y *= CBRT100I;
       e = -e;
     }
 
-  /* multiply by power of 2 */
-  x = FUNC_D(__ldexp) (x, e);
+  /* multiply by power of 10 */
+  y = __ldexpd128 (y, e);
 
   /* Newton iteration */
-  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
-  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
-  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
+  for (i = 0; i < 6; i++)
+    y -= (y - (z / (y * y))) * 0.3333333333333333333333333333333333333333DL;
 
   if (sign < 0)
-    x = -x;
-  return (x);
+    y = -y;
+  return (DEC_TYPE) y;
 }
 
 weak_alias (INTERNAL_FUNCTION_NAME, EXTERNAL_FUNCTION_NAME)
-- 
2.43.0


From 7a9747011ffa3ddd4eb72158e1ca78b8ec9056fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 38/48] fix: reduce trigonometric arguments with as many digits
 of pi as they need

sin, cos and tan reduced modulo 2*pi with 60 digits.  For a large argument,
or one close to a multiple of pi/2, few or no digits of the result were
right, and tan could be NaN with ERANGE.
---
 decNumberMath/decNumberMath.c | 386 ++++++++++++++++++++--------------
 1 file changed, 230 insertions(+), 156 deletions(-)

diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index 3f7bec4..713c9de 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -35,6 +35,7 @@
 #include <stdlib.h>                // for malloc/free
 #include <ctype.h>                 // for tolower
 #include <assert.h>
+#include <string.h>
 
 #define E  "2.7182818284590452353602874713526624977572470936999595749669676277240766303535"
 #define PI "3.1415926535897932384626433832795028841971693993751058209749445923078164062862"
@@ -78,18 +79,6 @@
 // Basic Functions
 // ----------------------------------------------------------------------
 
-// Return the largest integer less than or equal to x
-static decNumber* decNumberFloor (decNumber *result, decNumber *x, 
-			   decContext *set) 
-{
-  int round = set->round;
-
-  set->round = DEC_ROUND_DOWN;
-  decNumberToIntegralValue (result, x, set);
-  set->round = round;
-  return result;
-} /* decNumberFloor  */
-
 static int decNumberIsEqual (decNumber *x, decNumber *y, decContext *set)
 {
   decNumber diff;
@@ -105,20 +94,6 @@ static int decNumberIsInteger (decNumber *x, decContext *set)
   return decNumberIsEqual (x, &y, set);
 } /* decNumberIsInteger  */
 
-// Modulo function
-static decNumber* decNumberMod (decNumber *result, decNumber *x, decNumber *y,
-			 decContext *set)
-{
-  // x mod y = x - k*y where k = floor(x/y)
-  decNumber k;
-
-  decNumberDivide (&k, x, y, set);
-  decNumberFloor (&k, &k, set);
-  decNumberMultiply (&k, &k, y, set);
-  decNumberSubtract (result, x, &k, set);
-  return result;
-} /* decNumberMod  */
-
 // ----------------------------------------------------------------------
 // Exponential Function
 // ----------------------------------------------------------------------
@@ -725,168 +700,267 @@ decNumber* decNumberAtanh (decNumber *_result, decNumber *x, decContext *set)
 // Trigonometric Functions
 // ----------------------------------------------------------------------
 
-decNumber* decNumberSin (decNumber *_result, decNumber *y, decContext *set)
+// pi/2, to enough digits to reduce the largest _Decimal128.
+static const char HALF_PI[] =
+  "1.57079632679489661923132169163975144209858469968755291048747229"
+  "6153908203143104499314017412671058533991074043256641153323546922"
+  "3047752911158626797040642405587251420513509692605527798223114744"
+  "7746519098221440548783296672306423782411689339158263560095457282"
+  "4283461730174305227163324106696803630124570636862293503303157794"
+  "0874407604604814146270458576821839462951800056652652744102332606"
+  "9207347597075580471652863518287979597654609305869096630589655255"
+  "9274037231189981374783675942876362445613969091505974564916836681"
+  "2203283215430106974731976123685953510899304718513852696085881465"
+  "8837619233740923383470256600028406357263178041389288567137889480"
+  "4586818589360734220450612476715073274792685525396139844629461771"
+  "0099780560645109804320172090799068148873856549802593536056749999"
+  "9918648902497552986586640804815929751222972767345415132126115412"
+  "6672342517630965594085505001568919376443293766604190710308588834"
+  "5736517991267452143777343655797814319411768937968759788909288902"
+  "6608561340330650096393830559795460821009946904762860053274293163"
+  "9432968076690913984115150976017650926484497886811299706945624860"
+  "8876417395657577874286212270753479754147665584308639279445375491"
+  "9087731873246965962753020046385083556950492441200642918080178185"
+  "3830052355090971477798099473383918724724127689887363423552023767"
+  "3231040233421295347456466568385144945760523760810284830120290190"
+  "7509675562669121501779382012374823663195709963630213496139839117"
+  "7390818004670860820609962293157515143091487277853374919252747294"
+  "2934634978454636053987546514776605826724936013779801182403327495"
+  "5994091739887678318490371327126393127590920878733644548888639690"
+  "0040823530008072624596086608607386175070720986784274080680578676"
+  "2760667378709247342192616619536970716672738812084312594917847427"
+  "8104960961109213627512712844383589524730082673340249431361639589"
+  "3042892191913983988340727050476941893180475340032112562602558696"
+  "4924480420642443134728021209826425111053305931533721393110195974"
+  "7252356185689348047818218595864373388232878698120694543291632299"
+  "7906695239013795049732882039475634734199176297854912911310261244"
+  "7038633597391342413007384954513200681972187276525341017481262258"
+  "7469982571571490459532962546861084823075785492919370529894297988"
+  "6487749465080876964234069134341934471387077995927962622976979715"
+  "5249862623404229936368223479243269183681113130495623040256219421"
+  "9522562206827488139039885784571799885006480804472084743427792420"
+  "3176711036112914244324079228014253008421369726133733839447626069"
+  "2612749773333639119932282980581774431152887282490177968172840871"
+  "6205625753803473972554829804701261443985544657283456843361437447"
+  "0280050751654308964340460437380458912469294504857454837992630682"
+  "7748909465648924108414994743613294024287820071352387775661898207"
+  "2576187311718227142922239763293391052557067736786976155671358305"
+  "1067984768115721476242468593555072882701795139967201871003655289"
+  "2695310991937239042392448416607228569343759717532151092265955242"
+  "4050268530734033745963909559896997603070983171437722032187256185"
+  "9096089999195507959780907337571345619874470453593247115980783972"
+  "6040475732751126158019409650710468810689279783194688935415195348"
+  "9603867336109128129983075071075153401922386727460130270733296260"
+  "0748721425366259333001066217044095355243165867324825726952898134"
+  "2805027540533293984990817873681920262857295514485320700554856031"
+  "4021951987975783857885021016893496800361527938158817971093656257"
+  "3560266464095913093062933660789599207424414582235304787635347861"
+  "0458783558361455490845457640086753356374291611435917604676982862"
+  "5605417895756849410457221050337551673355515706335556849543292581"
+  "9915750985082575584258571882880917577825442454994929991193672764"
+  "1658177538239592679466130927448160664665449285321023376295354577"
+  "4070827492973081859013549099715496224447878564144529616166304864"
+  "9856042216786632744691195596629873183365291802071406941516019124"
+  "5187949262187208514566382809046886722015353734605600956510165190"
+  "0988105505502246466075804212224298188349194761434239156177632910"
+  "6572478842863121672094651984321312170538661348901403659457720550"
+  "5223411626358100526326136055830198332786546273555278926881733410"
+  "3265549482634593102823846562852931783100927905036468032993824305"
+  "8955226674425173056828843376624720834019813289893859278042276482"
+  "7063327042653071722159293384875728307034003501189388295672008563"
+  "7473521028111526949728065703556350020392736663496954072733232294"
+  "0398635413341531716429392849152617904466532878703397728581887627"
+  "1010574778807907001250631142970651082357754896296154953982736880"
+  "6275882837567875891483322738958725056498074451523199735664810536"
+  "7021875947867980729450969485655589521489142823751601599345757014"
+  "3540429952400547060736106589738238863112071274272701660785926530"
+  "7114406879252153166087591489933111858607958038583462737436949332"
+  "7474725057327031421683196895019884632836073192653368048285604590"
+  "3819163583208137444400393462801451142360520158605930410209500211"
+  "4830855981889606687875574797507830248159314736327368212615408851"
+  "8375795336751175364177028352019337175681111238579457524765492224"
+  "4666548170439038466299698902709670723688720921315649304049944343"
+  "7066302360784758119829322865108157990965975836769064870838647393"
+  "3621146232718340049033846411914034498200241217701850708157482948"
+  "9704621618948453534889711181254110844478691899311500796888235825"
+  "6144678930079408087789148676167230214075631360186715732659888870"
+  "8015995332770938198964667209760770670949742722367283691581249670"
+  "9565907404638885519319386715886037728272661038854606009525830481"
+  "4024546318009879941408066615833182643096633431680313678381517723"
+  "8814017522538861777355292977435139540717812007258590312321813397"
+  "2806376590670391651681271163919724876912186029176557385599630319"
+  "0667338843984798515491695653855493520429566873207214113863173297"
+  "3523729392389360096385764036588395385357860672236530285036674621"
+  "8465569175246581564202125609628258990347056764006573506523908218"
+  "9425926454642726005829196709828106745717079781293293278527634524"
+  "8260492901692536121324146986429239158152888878034443822312412342"
+  "8963019767638674015240145029380379125523735458219806813380224628"
+  "1371021041604283059531272716860657679792253438623014508093833976"
+  "2030817126128859771458149596532276889957018670216437631444481997"
+  "9397378645873213178727627039545725678555684705455969662595538010"
+  "4126013093992659438529214862958389065748495045096058485868639238"
+  "4236343042450168851212145825650250258416168217519475851494696116"
+  "725861006906403482505892204372";
+
+// Write x >= 0 as n*pi/2 + result, with result between -pi/4 and pi/4,
+// and return n modulo 4.  The result has full precision even if it is
+// close to zero: x has no more than 34 digits, so |result| > 10^-50.
+static int decTrigReduce (decNumber *result, decNumber *x, decContext *set)
 {
-  decNumber pi, pi2, zero, one, two, x, fctl, term, cmp, result;
-  int i;
-  int negate = 0;
-
-  DEC_STASH_CONTEXT (set, &zero);
-
-  decNumberFromString (&one, "1", set);
-  decNumberFromString (&two, "2", set);
-  decNumberFromString (&pi,  PI , set);
-
-  // Copy the argument y, so we can modify it.
-  decNumberCopy (&x, y);
-  // sin -x = - sin x
-  /* if (decCompare (&x, &zero) < 0) { */
-  if (decNumberIsNegative (&x)) { // x < 0
-    decNumberMinus (&x, &x, set);
-    negate = 1;
+  const int adj = x->exponent + x->digits - 1;
+  const int digits = (adj < 0 ? 0 : adj) + 2*DECNUMDIGITS;
+  const int n_unit = (sizeof (decNumber) + D2U (digits) * sizeof (Unit))
+		     / sizeof (decNumber) + 1;
+  decNumber half_pi[n_unit], n[n_unit], t[n_unit];
+  decNumber zero, cmp;
+  decContext wide = *set;
+  char str[digits+3];
+  int quadrant;
+
+  if (decNumberIsZero (x) || adj < -1) {
+    decNumberCopy (result, x);
+    return 0;
   }
-  // We now have x >= 0
-  decNumberMultiply (&pi2, &pi, &two, set); // pi2 = 2*pi
-  decNumberMod (&x, &x, &pi2, set);
-  // We now have 0 <= x < 2*pi
-  /*if (decCompare (&x, &pi) >= 0) {*/
-  decNumberCompare (&cmp, &x, &pi, set);
+  wide.digits = digits;
+  memcpy (str, HALF_PI, digits+2);
+  str[digits+2] = 0;
+  decNumberFromString (half_pi, str, &wide);
+
+  decNumberDivideInteger (n, x, half_pi, &wide);
+  quadrant = n->lsu[0] & 3;
+  decNumberMultiply (t, n, half_pi, &wide);
+  decNumberSubtract (t, x, t, &wide);
+
+  // t is between 0 and pi/2.
+  decNumberAdd (n, t, t, &wide);
+  decNumberCompare (&cmp, n, half_pi, set);
   if (!decNumberIsNegative (&cmp)) {
-    // x >= pi
-    decNumberSubtract (&x, &x, &pi, set);
-    negate = 1-negate;
+    decNumberSubtract (t, t, half_pi, &wide);
+    quadrant = (quadrant + 1) & 3;
   }
-  // We now have 0 <= x < pi
-  decNumberDivide (&pi2, &pi, &two, set); // pi2 = pi/2
-  /*if (decCompare (&x, &pi2) >= 0) {*/
-  decNumberCompare (&cmp, &x, &pi2, set);
-  if (!decNumberIsNegative (&cmp)) {
-    // x >= pi/2, so let x = pi-x 
-    decNumberSubtract (&x, &pi, &x, set);
-  }
-  // We now have 0 <= x <= pi/2.
-
+  decNumberZero (&zero);
+  zero.exponent = t->exponent;
+  decNumberAdd (result, t, &zero, set);
+  return quadrant;
+} /* decTrigReduce  */
+
+// sin x for |x| <= pi/4
+static decNumber* decSinOp (decNumber *result, decNumber *x, decContext *set)
+{
   //             x^3   x^5    x^7
   // sin x = x - --- + --- - ---- + ...
   //              6    120   5040
   //
   // term(0) = x
   // term(i) = - term(i-1) * x^2 / ((2*i)*(2*i+1))
+  decNumber mx2, tmpd, term, sum;
+  int i;
 
-  decNumberCopy (&fctl, &one);
-  decNumberCopy (&term, &x);
-  decNumberCopy (&result, &x);
-  // DECNUMDIGITS+3 terms are enough to achieve the required precision.
-  for (i=0; i<DECNUMDIGITS+3; i++) {
-    decNumber tmpd, termout;
-
-    // term = -term * x^2 / (cnt*(cnt+1))
-    // cnt = cnt+2
-    decNumberMinus (&term, &term, set);
-    decNumberMultiply (&term, &term, &x, set);
-    decNumberMultiply (&term, &term, &x, set);
+  decNumberMultiply (&mx2, x, x, set);
+  decNumberMinus (&mx2, &mx2, set);
+  decNumberCopy (&term, x);
+  decNumberCopy (&sum, x);
+  // DECNUMDIGITS/2 terms are enough to achieve the required precision.
+  for (i=1; i<DECNUMDIGITS/2; i++) {
+    decNumberMultiply (&term, &term, &mx2, set);
+    decNumberFromInt32 (&tmpd, (2*i)*(2*i+1));
+    decNumberDivide (&term, &term, &tmpd, set);
+    decNumberAdd (&sum, &sum, &term, set);
+  }
+  decNumberCopy (result, &sum);
+  return result;
+} /* decSinOp  */
 
-    // Compute denominator and generate term.
-    decNumberFromInt32 (&tmpd, ((i+1)*2 + 1) * ((i+1)*2));
-    decNumberMultiply (&fctl, &fctl, &tmpd, set);
-    decNumberDivide (&termout, &term, &fctl, set);
+// cos x for |x| <= pi/4
+static decNumber* decCosOp (decNumber *result, decNumber *x, decContext *set)
+{
+  //             x^2   x^4   x^6
+  // cos x = 1 - --- + --- - --- + ...
+  //              2     24   720
+  //
+  // term(0) = 1
+  // term(i) = - term(i-1) * x^2 / ((2*i-1)*(2*i))
+  decNumber mx2, tmpd, term, sum;
+  int i;
 
-    // sum = sum + term
-    decNumberAdd (&result, &result, &termout, set);
+  decNumberMultiply (&mx2, x, x, set);
+  decNumberMinus (&mx2, &mx2, set);
+  decNumberFromInt32 (&term, 1);
+  decNumberFromInt32 (&sum, 1);
+  // DECNUMDIGITS/2 terms are enough to achieve the required precision.
+  for (i=1; i<DECNUMDIGITS/2; i++) {
+    decNumberMultiply (&term, &term, &mx2, set);
+    decNumberFromInt32 (&tmpd, (2*i-1)*(2*i));
+    decNumberDivide (&term, &term, &tmpd, set);
+    decNumberAdd (&sum, &sum, &term, set);
   }
-  if (negate) {
+  decNumberCopy (result, &sum);
+  return result;
+} /* decCosOp  */
+
+decNumber* decNumberSin (decNumber *_result, decNumber *y, decContext *set)
+{
+  decNumber zero, x, result;
+  int n;
+
+  DEC_STASH_CONTEXT (set, &zero);
+
+  // sin -x = - sin x, sin (x + pi/2) = cos x, sin (x + pi) = - sin x
+  decNumberAbs (&x, y, set);
+  n = decTrigReduce (&x, &x, set);
+  if (n & 1)
+    decCosOp (&result, &x, set);
+  else
+    decSinOp (&result, &x, set);
+  if (((n & 2) != 0) != (decNumberIsNegative (y) != 0))
     decNumberMinus (&result, &result, set);
-  }
-  DEC_RESTORE_ROUND (set, _result, &result, &zero)
+
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
   return _result;
 } /* decNumberSin  */
 
 decNumber* decNumberCos (decNumber *_result, decNumber *y, decContext *set)
 {
-  decNumber pi, pi2, zero, one, two, x, term, cmp, fctl, result;
-  int i;
-  int negate = 0;
+  decNumber zero, x, result;
+  int n;
 
   DEC_STASH_CONTEXT (set, &zero);
 
-  decNumberFromString (&one, "1", set);
-  decNumberFromString (&two, "2", set);
-  decNumberFromString (&pi,  PI , set);
-
-  // Copy the argument y, so we can modify it.
-  decNumberCopy (&x, y);
-  // cos -y = cos y
-  /*if (decCompare (&x, &zero) < 0) {*/
-  if (decNumberIsNegative (&x)) {
-    decNumberMinus (&x, &x, set);
-  }
-  // We now have x >= 0
-  decNumberMultiply (&pi2, &pi, &two, set); // pi2 = 2*pi
-  decNumberMod (&x, &x, &pi2, set);
-  // We now have 0 <= x < 2*pi
-  /*if (decCompare (&x, &pi) >= 0) {*/
-  decNumberCompare (&cmp, &x, &pi, set);
-  if (!decNumberIsNegative (&cmp)) {
-    // x >= pi
-    decNumberSubtract (&x, &pi2, &x, set);
-  }
-  // We now have 0 <= x < pi
-  decNumberDivide (&pi2, &pi, &two, set); // pi2 = pi/2
-  /*if (decCompare (&x, &pi2) >= 0) {*/
-  decNumberCompare (&cmp, &x, &pi2, set);
-  if (!decNumberIsNegative (&cmp)) {
-    // x >= pi/2, so let x = pi-x 
-    decNumberSubtract (&x, &pi, &x, set);
-    negate = 1;
-  }
-  // We now have 0 <= x <= pi/2.
-
-  //             x^2   x^4   x^6
-  // cos x = 1 - --- + --- - --- + ...
-  //              2     24   720
-  //
-  // term(0) = 1
-  // term(i) = - term(i-1) * x^2 / ((2*i-1)*(2*i))
-  decNumberCopy (&term, &one);
-  decNumberCopy (&result, &one);
-  decNumberCopy (&fctl, &one);
-  // DECNUMDIGITS+3 terms are enough to achieve the required precision.
-  for (i=0; i<DECNUMDIGITS+3; i++) {
-    decNumber tmpd, termout;
-
-    // x^(2*i)
-    decNumberMinus (&term, &term, set);
-    decNumberMultiply (&term, &term, &x, set);
-    decNumberMultiply (&term, &term, &x, set);
-
-    // Compute factorial denominator
-    decNumberFromInt32 (&tmpd, (i+1)*2 * ((i+1)*2-1));
-    decNumberMultiply (&fctl, &fctl, &tmpd, set);
-    decNumberDivide (&termout, &term, &fctl, set);
-
-    // Sum
-    decNumberAdd (&result, &result, &termout, set);
-  }
-  if (negate) {
+  // cos -x = cos x, cos (x + pi/2) = - sin x, cos (x + pi) = - cos x
+  decNumberAbs (&x, y, set);
+  n = decTrigReduce (&x, &x, set);
+  if (n & 1)
+    decSinOp (&result, &x, set);
+  else
+    decCosOp (&result, &x, set);
+  if (n == 1 || n == 2)
     decNumberMinus (&result, &result, set);
-  }
 
   DEC_RESTORE_ROUND (set, _result, &result, &zero);
   return _result;
 } /* decNumberCos  */
 
-decNumber* decNumberTan (decNumber *result, decNumber *y, decContext *set)
+decNumber* decNumberTan (decNumber *_result, decNumber *y, decContext *set)
 {
-  // tan x = sin x / cos x
-  decNumber denominator;
+  // tan x = sin x / cos x, tan (x + pi/2) = - cos x / sin x
+  decNumber zero, x, sin, cos, result;
+  int n;
 
-  decNumberSin (result, y, set);
-  decNumberCos (&denominator, y, set);
-  if (decNumberIsZero (&denominator))
-    decNumberFromString (result, "NaN", set);
+  DEC_STASH_CONTEXT (set, &zero);
+
+  decNumberAbs (&x, y, set);
+  n = decTrigReduce (&x, &x, set);
+  decSinOp (&sin, &x, set);
+  decCosOp (&cos, &x, set);
+  if (n & 1)
+    decNumberDivide (&result, &cos, &sin, set);
   else
-    decNumberDivide (result, result, &denominator, set);
-  return result;
+    decNumberDivide (&result, &sin, &cos, set);
+  if ((n & 1) != (decNumberIsNegative (y) != 0))
+    decNumberMinus (&result, &result, set);
+
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
 } /* decNumberTan  */
 
 // Arc tangent in the expanded context.
-- 
2.43.0


From 1881109a3e842efe728bbf058812e0e6ca4f65ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 39/48] fix: correct pow for subnormal, large integral and
 overflowing operands

decimal64: subnormal operands gave NaN, -0 to an odd negative power gave
+infinity, a negative number to a large even power gave NaN, large integral
powers lost accuracy, and splitting y with rint was inexact when rounding
up or down.  decimal32 did not set ERANGE if only the narrow type
overflows.  decimal128: a large odd y was taken for even or rejected.
---
 ieee754r/powd128.c | 18 +++++++-----------
 ieee754r/powd32.c  |  9 ++++++++-
 ieee754r/powd64.c  | 25 +++++++++++++++----------
 3 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/ieee754r/powd128.c b/ieee754r/powd128.c
index 682ce05..60933b0 100644
--- a/ieee754r/powd128.c
+++ b/ieee754r/powd128.c
@@ -50,20 +50,15 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   decNumber dn_x;
   decNumber dn_absx;
   decNumber dn_y;
-  decNumber dn_one;
-  decNumber dn_two;
   decNumber dn_temp;
   decNumber dn_temp2;
-  decNumber dn_temp3;
   int y_is_int;
   int y_is_oddint=0;
   int abs_x_vs_1;
   DEC_TYPE one = DFP_CONSTANT(1.0);
-  DEC_TYPE two = DFP_CONSTANT(2.0);
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   if (decNumberIsZero (&dn_y))
@@ -93,11 +88,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   y_is_int = decNumberIsZero (&dn_temp2);
   if (y_is_int)
     {
-      FUNC_CONVERT_TO_DN (&two, &dn_two);
-      decNumberDivide (&dn_temp, &dn_y, &dn_two, &context);
-      decNumberToIntegralValue (&dn_temp2, &dn_temp, &context);
-      decNumberSubtract (&dn_temp3, &dn_temp2, &dn_temp, &context);
-      y_is_oddint = !decNumberIsZero (&dn_temp3);
+      /* A positive exponent leaves a multiple of ten. */
+      y_is_oddint = !decNumberIsInfinite (&dn_temp)
+		    && dn_temp.exponent == 0 && (dn_temp.lsu[0] & 1);
     }
 
   /*  Handle all special cases for which x = +-0 */
@@ -140,7 +133,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
       return DFP_NAN;
     }
 
-  decNumberPower (&dn_result, &dn_x, &dn_y, &context);
+  /* decNumberPower rejects large powers of a negative number. */
+  decNumberPower (&dn_result, &dn_absx, &dn_y, &context);
+  if (decNumberIsNegative (&dn_x) && y_is_oddint)
+    dn_result.bits ^= DECNEG;
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
   if (context.status & DEC_Overflow)
diff --git a/ieee754r/powd32.c b/ieee754r/powd32.c
index d335960..0fbf08a 100644
--- a/ieee754r/powd32.c
+++ b/ieee754r/powd32.c
@@ -24,12 +24,19 @@
    Please see libdfp/COPYING.txt for more information.  */
 
 #include <math.h>
+#include <errno.h>
+#include <ieee754r_private.h>
 
 extern _Decimal64 __powd64(_Decimal64, _Decimal64);
 
 _Decimal32
 __powd32 (_Decimal32 x, _Decimal32 y)
 {
-  return (_Decimal32) __powd64((_Decimal64) x, (_Decimal64) y);
+  _Decimal64 r = __powd64((_Decimal64) x, (_Decimal64) y);
+  _Decimal32 z = (_Decimal32) r;
+  /* The narrower type may overflow by itself. */
+  if (__isinfd32 (z) && __isfinited64 (r))
+    errno = ERANGE;
+  return z;
 }
 weak_alias(__powd32, powd32)
diff --git a/ieee754r/powd64.c b/ieee754r/powd64.c
index dd11f6b..fb5695c 100644
--- a/ieee754r/powd64.c
+++ b/ieee754r/powd64.c
@@ -39,9 +39,8 @@
 #include <limits.h>
 #include <stdint.h>
 
-/* The actual value is 9223372036854775807, this needs to round down for exact
-   conversion.  */
-#define D64_INT64_MAX   9223372036854775000.DD
+/* The error of intpow grows with the exponent, do not use it past this.  */
+#define D64_INTPOW_MAX   1000000000.DD
 
 /* Compute integer powers with higher precision to minimize rounding error.  */
 static _Decimal128
@@ -80,7 +79,8 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
   int y_class = __fpclassifyd64 (y);
   if (!(x_class == FP_NORMAL && y_class == FP_NORMAL))
     {
-      if (y_class == FP_SUBNORMAL && y_class == FP_SUBNORMAL)
+      if ((x_class == FP_NORMAL || x_class == FP_SUBNORMAL)
+	  && (y_class == FP_NORMAL || y_class == FP_SUBNORMAL))
 	{
 	  /* Handle normally */
 	}
@@ -97,7 +97,7 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
 	  if (y_class == FP_INFINITE)
 	    return y < 0.DD ? DEC_INFINITY : 0.DD;
 	  if (isodd(y))
-	    return y < 0.DD ? DEC_INFINITY : __copysignd64(0.DD, x);
+	    return __copysignd64 (y < 0.DD ? DEC_INFINITY : 0.DD, x);
 	  return y < 0.DD ? DEC_INFINITY : 0.DD;
 	}
       else if (y_class == FP_INFINITE)
@@ -128,11 +128,11 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
   /* x and y are non-zero, finite, and not one.
      Split y into integer and fraction and use the identity:
      x ^ (m+n) == ( x^m ) * (x^n) */
-  y_int = __rintd64 (y);
+  y_int = __truncd64 (y);
   result = 1.DL;
 
-  /* Compute x^(int(y)) first, if abs(int(y)) fits inside a long int.  */
-  if (__fabsd64 (y_int) <= D64_INT64_MAX)
+  /* Compute x^(int(y)) first, if abs(int(y)) is not too large.  */
+  if (__fabsd64 (y_int) <= D64_INTPOW_MAX)
     {
       int64_t int_y = y_int;	/* convert to int */
       if (int_y == 0)
@@ -150,8 +150,13 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
     }
   else
     {
-      /* TODO: the following will likely be inaccurate, but hopefully not blatantly wrong.
-               Fixing this requires a better implementation.  */
+      /* A large integral power of a negative x takes its sign from y.  */
+      if (x < 0.DD && y_int == y)
+	{
+	  if (isodd (y))
+	    result = -1.DL;
+	  x = -x;
+	}
       y_int = 0.DD;
     }
 
-- 
2.43.0


From 137ad34311a99df26e847ca99e4e7d8f49d6371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 40/48] fix: set errno in decimal128 exp and log, and let exp
 underflow gradually

exp set no ERANGE on overflow and flushed subnormal results; log had EDOM
and ERANGE the wrong way around.
---
 ieee754r/expd128.c | 12 +++++++++---
 ieee754r/logd128.c |  4 ++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/ieee754r/expd128.c b/ieee754r/expd128.c
index a826c9e..4c37538 100644
--- a/ieee754r/expd128.c
+++ b/ieee754r/expd128.c
@@ -30,6 +30,7 @@
 
 #include <math.h>
 #include <ieee754r_private.h>
+#include <errno.h>
 #include <dfp/fenv.h>
 
 #include "dfp_inline.h"
@@ -70,7 +71,8 @@ __expd128 (_Decimal128 val)
 
   /* Computed by interval using mpfr in 512b precision */
   const _Decimal128 max = 14149.38539644841072829055748903541DL;
-  const _Decimal128 min = -14144.78022626242263692252150612604DL;
+  /* Below log(__DEC128_SUBNORMAL_MIN__ / 2) */
+  const _Decimal128 min = -14222.0DL;
 
   if (!(val >= min && val <= max))
     {
@@ -78,7 +80,11 @@ __expd128 (_Decimal128 val)
       if (__builtin_isnan (val))
 	return val + val;
       else if (val > max)
-	return DEC_INFINITY;
+	{
+	  if (!__isinfd128 (val))
+	    errno = ERANGE;
+	  return DEC_INFINITY;
+	}
       else
 	return 0.0DL;
     }
@@ -89,7 +95,7 @@ __expd128 (_Decimal128 val)
      First, reduce range via fitting an integer such that
      10^(n*ln(10)).
 
-     This value will be 6145 >= n >= 6143. Ideally a little
+     This value will be 6145 >= n >= -6177. Ideally a little
      smaller, but rounding mode increases this.
 
      Round the value against the smallest integral val.
diff --git a/ieee754r/logd128.c b/ieee754r/logd128.c
index 4deef4c..c4394ee 100644
--- a/ieee754r/logd128.c
+++ b/ieee754r/logd128.c
@@ -68,12 +68,12 @@ __logd128 (_Decimal128 x)
     {
       if (x == 0.0DL)
 	{
-	  DFP_ERRNO (EDOM);
+	  DFP_ERRNO (ERANGE);
 	  return -DEC_INFINITY;
 	}
       else
 	{
-	  DFP_ERRNO (ERANGE);
+	  DFP_ERRNO (EDOM);
 	  return DFP_NAN;
 	}
     }
-- 
2.43.0


From 8c331d6e2c6e398ff8275f3cc0f64f636370413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 41/48] fix: correct erf and erfc for large and negative
 arguments

Finite arguments of 0x7fff0000 and more were treated as infinite, erf was
1 - erfc also for negative arguments, erfc of NaN was 0, decimal128 erfc
underflowed at 107 instead of near 119 and lost digits by not trimming the
argument.
---
 ieee754r/erfd32.c | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/ieee754r/erfd32.c b/ieee754r/erfd32.c
index 809891a..d44959c 100644
--- a/ieee754r/erfd32.c
+++ b/ieee754r/erfd32.c
@@ -86,7 +86,7 @@
  *              for const = 1/4, 3/8, ..., 9/8
  *              and 0 <= s <= 1/8 .
  *
- *      4. For x in [5/4, 107],
+ *      4. For x in [5/4, 120],
  *	erfc(x) = (1/x)*exp(-x*x-0.5625 + R(z))
  *              z=1/x^2
  *         The interval is partitioned into several segments
@@ -104,7 +104,7 @@
  *		erfc(x) ~ ---------- * ( 1 + Poly(1/x^2) )
  *			  x*sqrt(pi)
  *
- *      5. For inf > x >= 107
+ *      5. For inf > x >= 120
  *	erf(x)  = sign(x) *(1 - tiny)  (raise inexact)
  *	erfc(x) = tiny*tiny (raise underflow) if x > 0
  *			= 2 - tiny if x<0
@@ -775,16 +775,15 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   sign = (x < 0.0DL);
   a = FUNC_D(__fabs) (x);
 
-  if (a >= 0x7fff0000)		/* erf(nan)=nan */
-    return (DEC_TYPE) ((1 - (sign<<1)) + one / x);	/* erf(+-inf)=+-1 */
+  if (FUNC_D(__isnan) (x))	/* erf(nan)=nan */
+    return x + x;
 
-  if (a >= 1.0DL) /* |x| >= 1.0 */
+  if (a >= 1.0DL) /* |x| >= 1.0, erf(+-inf)=+-1 */
     {
-      y = FUNC_D(__erfc) (x);
-      return (one - y);
-      /*    return (one - __erfcl (x)); */
+      y = one - FUNC_D(__erfc) (a);
+      return (DEC_TYPE) (sign ? -y : y);
     }
-  z = x * x;
+  z = a * a;
   if (a < 0.875DL)  /* a < 0.875 */
     {
       if (a < 2.0E-57DL) /* |x|<2**-57 */
@@ -823,11 +822,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   sign = (x < 0.0DL);
   ix = FUNC_D(__fabs) (x);
 
-  if (ix >= 0x7fff0000)
-    {				/* erfc(nan)=nan */
-      /* erfc(+-inf)=0,2 */
-      return (DEC_TYPE) ((sign << 1) + one / x);
-    }
+  if (FUNC_D(__isnan) (x))	/* erfc(nan)=nan */
+    return x + x;
+  if (FUNC_D(__isinf) (x))	/* erfc(+-inf)=0,2 */
+    return (DEC_TYPE) (sign << 1);
 
   if (ix < 0.25DL) /* |x| <1/4 */
     {
@@ -886,8 +884,8 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 	y = 2.0DF - y;
       return y;
     }
-  /* 1.25 < |x| < 107 */
-  if (ix < 107.0DF)
+  /* 1.25 < |x| < 120 */
+  if (ix < 120.0DF)
     {
       /* x < -9 */
       if (x > 9.0DF && sign)
@@ -923,14 +921,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 	  p = neval (z, RNr8, NRNr8) / deval (z, RDr8, NRDr8);
 	  break;
 	}
-      /* Trim the value?
-      u.value = x;
-      u.parts32.w3 = 0;
-      u.parts32.w2 &= 0xfe000000;
-      z = u.value;
-      */
-      z = ix;
-      r = __expd128 (-z * z - 0.5625DF) * __expd128 ((z - x) * (z + x) + p);
+      /* Trim the value so that its square is exact.  */
+      z = (_Decimal64) ix;
+      r = __expd128 (-z * z - 0.5625DF) * __expd128 ((z - ix) * (z + ix) + p);
       if (!sign)
 	return (DEC_TYPE)(r / x);
       else
-- 
2.43.0


From 3cde15baff01c1ac80b1f421363ad7912385616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 42/48] fix: correct tgamma at poles and lgamma for tiny and
 large arguments

tgamma of -0 is -infinity, of -infinity and of negative integers a domain
error; it lost many digits by working in the target type.  lgamma of tiny
negative arguments overflowed and the parity of large ones was computed in
int, which also gave tgamma the wrong sign.
---
 ieee754r/lgammad32.c | 15 +++++++++------
 ieee754r/tgammad32.c | 28 ++++++++++++++--------------
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/ieee754r/lgammad32.c b/ieee754r/lgammad32.c
index d09bfa5..de70f0f 100644
--- a/ieee754r/lgammad32.c
+++ b/ieee754r/lgammad32.c
@@ -801,8 +801,8 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
 	  DFP_EXCEPT (FE_DIVBYZERO);
 	  return DFP_HUGE_VAL;
 	}
-      i = p;
-      if ((i & 1) == 0)
+      z = 0.5DL * p;
+      if (z == __floord128 (z))
 	*signgamp = -1;
       z = q - p;
       if (z > 0.5DL)
@@ -810,6 +810,9 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
 	  p += 1.0DL;
 	  z = p - q;
 	}
+      /* log |gamma (x)| = -log |x| to working precision for tiny x */
+      if (q < 1e-40DL)
+	return (DEC_TYPE) -__logd128 (q);
       z = q * __sind128 (M_PIdl * z);
       if (z == 0.0DL)
 	{
@@ -862,7 +865,7 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
 	      z = x - 1.0DL;
 	      p = z * neval (z, RN2, NRN2) / deval (z, RD2, NRD2);
 	    }
-	  p = p - FUNC_D(__log) (x);
+	  p = p - __logd128 (x);
 	  break;
 
 	case 1:
@@ -890,7 +893,7 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
 		  z = x - 1.0DL;
 		  p = z * neval (z, RN2, NRN2) / deval (z, RD2, NRD2);
 		}
-	      p = p - FUNC_D(__log) (x);
+	      p = p - __logd128 (x);
 	    }
 	  else if (x < 1.0DL)
 	    {
@@ -1052,8 +1055,8 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
       return (DEC_TYPE)(*signgamp * huge * huge);
     }
 
-  q = ls2pi - x;
-  q = (x - 0.5DL) * FUNC_D(__log) (x) + q;
+  /* (x - 0.5) * log (x) - x + ls2pi, without an early overflow */
+  q = (x - 0.5DL) * (__logd128 (x) - 1.0DL) + (ls2pi - 0.5DL);
   if (x <= 1.0e18DL)
     {
       p = 1.0DL / (x * x);
diff --git a/ieee754r/tgammad32.c b/ieee754r/tgammad32.c
index b4c1cf5..e204f06 100644
--- a/ieee754r/tgammad32.c
+++ b/ieee754r/tgammad32.c
@@ -38,34 +38,34 @@
 
 #include <dfpmacro.h>
 
-extern DEC_TYPE
-FUNC_D (__lgamma_r) (DEC_TYPE, int *);
-//extern int
-//FUNC_D (__builtin_signbit) (DEC_TYPE);
+extern _Decimal128 __lgamma_rd128 (_Decimal128, int *);
 
 
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x)
 {
-  DEC_TYPE result, gamma;
+  _Decimal128 gamma;
   int local_signgam;
 
   if (x == DFP_CONSTANT(0.0))	/*  Pole error if x== +-0 */
     {
       DFP_EXCEPT (FE_DIVBYZERO);
-//      return FUNC_D (__builtin_signbit) (x) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
-      return (x<0) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
+      return FUNC_D (__signbit) (x) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
     }
-  if (x < DFP_CONSTANT(0.0) && (!FUNC_D (__isinf) (x) && FUNC_D (__rint) (x) == x) )
+  /* Domain error if x is -Inf or a negative integer */
+  if (x < DFP_CONSTANT(0.0) && (FUNC_D (__isinf) (x) || FUNC_D (__floor) (x) == x) )
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
     }
 
-  gamma = FUNC_D(__lgamma_r) (x,&local_signgam);
-  result = local_signgam * FUNC_D(__exp) (gamma);
+  /* gamma (x) = 1/x to working precision for tiny x */
+  if (FUNC_D (__fabs) (x) < 1e-35DL)
+    return DFP_CONSTANT(1.0) / x;
 
-  return result;
+  /* An error in lgamma grows by its size here, so use the widest type. */
+  gamma = __lgamma_rd128 (x,&local_signgam);
+  return (DEC_TYPE) (local_signgam * __expd128 (gamma));
 }
 
 
@@ -73,10 +73,10 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x);
-  if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
-    DFP_ERRNO (ERANGE);
-  if (x < DFP_CONSTANT(0.0) && (FUNC_D (__isinf) (x) && FUNC_D (__rint) (x) == x) )
+  if (x < DFP_CONSTANT(0.0) && FUNC_D (__isnan) (z))
     DFP_ERRNO (EDOM);
+  else if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
+    DFP_ERRNO (ERANGE);
   return z;
 }
 
-- 
2.43.0


From 6433d80d6ffba5c69735bccd65f01c04b259c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 43/48] fix: keep the intermediate range of pow wide and the
 sign of log(1)

---
 ieee754r/logd64.c  | 2 ++
 ieee754r/powd128.c | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ieee754r/logd64.c b/ieee754r/logd64.c
index 55b81e3..9042472 100644
--- a/ieee754r/logd64.c
+++ b/ieee754r/logd64.c
@@ -81,6 +81,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
     }
   if (__isinfd64(val))
     return val;
+  if (val == DFP_CONSTANT(1.0))
+    return DFP_CONSTANT(0.0);
 
   result = __frexpd64 (val, &exp);
 
diff --git a/ieee754r/powd128.c b/ieee754r/powd128.c
index 60933b0..9b6af68 100644
--- a/ieee754r/powd128.c
+++ b/ieee754r/powd128.c
@@ -133,7 +133,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
       return DFP_NAN;
     }
 
-  /* decNumberPower rejects large powers of a negative number. */
+  /* decNumberPower rejects large powers of a negative number, and takes
+     the reciprocal first if y is negative, which must not overflow. */
+  context.emax = 999999;
+  context.emin = -999999;
   decNumberPower (&dn_result, &dn_absx, &dn_y, &context);
   if (decNumberIsNegative (&dn_x) && y_is_oddint)
     dn_result.bits ^= DECNEG;
-- 
2.43.0


From 1b9dd144460dcb69067fb7c796b0c4b2922ee3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 44/48] fix: raise underflow when a tiny decimal128 product
 rounds to the smallest normal number

---
 libbid/bid128_fma.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libbid/bid128_fma.c b/libbid/bid128_fma.c
index 5804115..5864db7 100644
--- a/libbid/bid128_fma.c
+++ b/libbid/bid128_fma.c
@@ -1288,6 +1288,10 @@ bid128_ext_fma (int *ptr_is_midpoint_lt_even,
     save_fpsf = *pfpsf; // sticky bits - caller value must be preserved
     *pfpsf = 0;
 
+    // tininess is detected before rounding
+    if (q4 + e4 < expmin + p34)
+      is_tiny = 1;
+
     if (q4 > p34) {
 
       // truncate C4 to p34 digits into res
-- 
2.43.0


From 50e4f71b6b72d70b8a793e0a91f0614daf151221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 45/48] fix: take decimal coefficients above the largest for
 zero when converting to float and double

---
 libbid/_dd_to_df.c | 5 +++++
 libbid/_dd_to_sf.c | 5 +++++
 libbid/_sd_to_sf.c | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/libbid/_dd_to_df.c b/libbid/_dd_to_df.c
index be34d71..dfcfe1f 100644
--- a/libbid/_dd_to_df.c
+++ b/libbid/_dd_to_df.c
@@ -32,6 +32,11 @@ __bid_truncdddf (_Decimal64 x) {
   union decimal64 ux;
 
   ux.d = x;
+  /* A coefficient above the largest one stands for zero.  */
+  if ((ux.i & 0x6000000000000000ull) == 0x6000000000000000ull
+      && (ux.i & 0x7800000000000000ull) != 0x7800000000000000ull
+      && (ux.i & 0x7ffffffffffffull) >= 10000000000000000ull - 0x20000000000000ull)
+    ux.i &= 0x8000000000000000ull;
   res = __bid64_to_binary64 (ux.i);
   return (res);
 }
diff --git a/libbid/_dd_to_sf.c b/libbid/_dd_to_sf.c
index 328341a..10cd32f 100644
--- a/libbid/_dd_to_sf.c
+++ b/libbid/_dd_to_sf.c
@@ -32,6 +32,11 @@ __bid_truncddsf (_Decimal64 x) {
   union decimal64 ux;
 
   ux.d = x;
+  /* A coefficient above the largest one stands for zero.  */
+  if ((ux.i & 0x6000000000000000ull) == 0x6000000000000000ull
+      && (ux.i & 0x7800000000000000ull) != 0x7800000000000000ull
+      && (ux.i & 0x7ffffffffffffull) >= 10000000000000000ull - 0x20000000000000ull)
+    ux.i &= 0x8000000000000000ull;
   res = __bid64_to_binary32 (ux.i);
   return (res);
 }
diff --git a/libbid/_sd_to_sf.c b/libbid/_sd_to_sf.c
index f9f2c09..0aa58a6 100644
--- a/libbid/_sd_to_sf.c
+++ b/libbid/_sd_to_sf.c
@@ -32,6 +32,11 @@ __bid_truncsdsf (_Decimal32 x) {
   union decimal32 ux;
 
   ux.d = x;
+  /* A coefficient above the largest one stands for zero.  */
+  if ((ux.i & 0x60000000u) == 0x60000000u
+      && (ux.i & 0x78000000u) != 0x78000000u
+      && (ux.i & 0x1fffff) >= 10000000 - 0x800000)
+    ux.i &= 0x80000000u;
   res = __bid32_to_binary32 (ux.i);
   return (res);
 }
-- 
2.43.0


From 8f3bc260736a3ab130d264171f0fe13f7602b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 46/48] fix: round conversions to binary floating types in the
 binary rounding direction

---
 libbid/_dd_to_df.c           |  2 +-
 libbid/_dd_to_hf.c           |  2 +-
 libbid/_dd_to_sf.c           |  2 +-
 libbid/_dd_to_tf.c           |  2 +-
 libbid/_dd_to_xf.c           |  2 +-
 libbid/_sd_to_df.c           |  2 +-
 libbid/_sd_to_hf.c           |  2 +-
 libbid/_sd_to_sf.c           |  2 +-
 libbid/_sd_to_tf.c           |  2 +-
 libbid/_sd_to_xf.c           |  2 +-
 libbid/_td_to_df.c           |  2 +-
 libbid/_td_to_hf.c           |  2 +-
 libbid/_td_to_sf.c           |  2 +-
 libbid/_td_to_tf.c           |  2 +-
 libbid/_td_to_xf.c           |  2 +-
 libbid/bid_conf.h            | 10 +++++++++-
 libbid/bid_decimal_globals.c | 21 +++++++++++++++++++++
 17 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/libbid/_dd_to_df.c b/libbid/_dd_to_df.c
index dfcfe1f..36b3e81 100644
--- a/libbid/_dd_to_df.c
+++ b/libbid/_dd_to_df.c
@@ -27,7 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 DFtype
 __bid_truncdddf (_Decimal64 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   DFtype res;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_hf.c b/libbid/_dd_to_hf.c
index 98fb47d..862a46c 100644
--- a/libbid/_dd_to_hf.c
+++ b/libbid/_dd_to_hf.c
@@ -28,7 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_HF_MODE || BID_HAS_HF_MODE
 HFtype
 __bid_truncddhf (_Decimal64 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   HFtype res;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_sf.c b/libbid/_dd_to_sf.c
index 10cd32f..ccb31f1 100644
--- a/libbid/_dd_to_sf.c
+++ b/libbid/_dd_to_sf.c
@@ -27,7 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 SFtype
 __bid_truncddsf (_Decimal64 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   SFtype res;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_tf.c b/libbid/_dd_to_tf.c
index c57fb47..fa1fbaa 100644
--- a/libbid/_dd_to_tf.c
+++ b/libbid/_dd_to_tf.c
@@ -28,7 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_TF_MODE || BID_HAS_TF_MODE
 TFtype
 __bid_extendddtf (_Decimal64 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   union float128 res;
   union decimal64 ux;
 
diff --git a/libbid/_dd_to_xf.c b/libbid/_dd_to_xf.c
index 68cfc6a..f0033d0 100644
--- a/libbid/_dd_to_xf.c
+++ b/libbid/_dd_to_xf.c
@@ -28,7 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #ifdef __LIBGCC_HAS_XF_MODE__
 XFtype
 __bid_extendddxf (_Decimal64 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   XFtype res;
   union decimal64 ux;
 
diff --git a/libbid/_sd_to_df.c b/libbid/_sd_to_df.c
index 0969498..d8ba75b 100644
--- a/libbid/_sd_to_df.c
+++ b/libbid/_sd_to_df.c
@@ -27,7 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 DFtype
 __bid_extendsddf (_Decimal32 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   DFtype res;
   union decimal32 ux;
 
diff --git a/libbid/_sd_to_hf.c b/libbid/_sd_to_hf.c
index 0b16efc..84eebe5 100644
--- a/libbid/_sd_to_hf.c
+++ b/libbid/_sd_to_hf.c
@@ -28,7 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_HF_MODE || BID_HAS_HF_MODE
 HFtype
 __bid_truncsdhf (_Decimal32 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   HFtype res;
   union decimal32 ux;
 
diff --git a/libbid/_sd_to_sf.c b/libbid/_sd_to_sf.c
index 0aa58a6..6c0c4b9 100644
--- a/libbid/_sd_to_sf.c
+++ b/libbid/_sd_to_sf.c
@@ -27,7 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 SFtype
 __bid_truncsdsf (_Decimal32 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   SFtype res;
   union decimal32 ux;
 
diff --git a/libbid/_sd_to_tf.c b/libbid/_sd_to_tf.c
index 1aaf780..7498656 100644
--- a/libbid/_sd_to_tf.c
+++ b/libbid/_sd_to_tf.c
@@ -28,7 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_TF_MODE || BID_HAS_TF_MODE
 TFtype
 __bid_extendsdtf (_Decimal32 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   union float128 res;
   union decimal32 ux;
 
diff --git a/libbid/_sd_to_xf.c b/libbid/_sd_to_xf.c
index e8f1bc7..3dc8c57 100644
--- a/libbid/_sd_to_xf.c
+++ b/libbid/_sd_to_xf.c
@@ -28,7 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #ifdef __LIBGCC_HAS_XF_MODE__
 XFtype
 __bid_extendsdxf (_Decimal32 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   XFtype res;
   union decimal32 ux;
 
diff --git a/libbid/_td_to_df.c b/libbid/_td_to_df.c
index 01441ff..8844815 100644
--- a/libbid/_td_to_df.c
+++ b/libbid/_td_to_df.c
@@ -27,7 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 DFtype
 __bid_trunctddf (_Decimal128 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   DFtype res;
   union decimal128 ux;
 
diff --git a/libbid/_td_to_hf.c b/libbid/_td_to_hf.c
index 08562e6..5521cdf 100644
--- a/libbid/_td_to_hf.c
+++ b/libbid/_td_to_hf.c
@@ -28,7 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_HF_MODE || BID_HAS_HF_MODE
 HFtype
 __bid_trunctdhf (_Decimal128 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   HFtype res;
   union decimal128 ux;
 
diff --git a/libbid/_td_to_sf.c b/libbid/_td_to_sf.c
index 699b13a..9bf0ecf 100644
--- a/libbid/_td_to_sf.c
+++ b/libbid/_td_to_sf.c
@@ -27,7 +27,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
 SFtype
 __bid_trunctdsf (_Decimal128 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   SFtype res;
   union decimal128 ux;
 
diff --git a/libbid/_td_to_tf.c b/libbid/_td_to_tf.c
index 7c1809d..86c5762 100644
--- a/libbid/_td_to_tf.c
+++ b/libbid/_td_to_tf.c
@@ -28,7 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #if LIBGCC2_HAS_TF_MODE || BID_HAS_TF_MODE
 TFtype
 __bid_trunctdtf (_Decimal128 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   union float128 res;
   union decimal128 ux;
 
diff --git a/libbid/_td_to_xf.c b/libbid/_td_to_xf.c
index ebc9a42..d6f853d 100644
--- a/libbid/_td_to_xf.c
+++ b/libbid/_td_to_xf.c
@@ -28,7 +28,7 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #ifdef __LIBGCC_HAS_XF_MODE__
 XFtype
 __bid_trunctdxf (_Decimal128 x) {
-  BID_OPERATION;
+  BID_TO_BINARY_OPERATION;
   XFtype res;
   union decimal128 ux;
 
diff --git a/libbid/bid_conf.h b/libbid/bid_conf.h
index 1ecd811..f3b01c8 100644
--- a/libbid/bid_conf.h
+++ b/libbid/bid_conf.h
@@ -558,14 +558,22 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 // makes the floating-point environment show on return exactly the exceptions
 // left in _IDEC_glbflags, in addition to those that were raised before.  The
 // binary arithmetic relies on rounding to nearest.
-struct __dfp_operation { int fenv; int round; unsigned int glbflags; };
+struct __dfp_operation
+{ int fenv; int round; unsigned int glbflags; unsigned int glbround; };
 extern struct __dfp_operation __dfp_begin_operation (void)
   __attribute__ ((visibility ("hidden")));
+extern struct __dfp_operation __dfp_begin_to_binary (void)
+  __attribute__ ((visibility ("hidden")));
 extern void __dfp_end_operation (struct __dfp_operation *)
   __attribute__ ((visibility ("hidden")));
 #define BID_OPERATION \
   struct __dfp_operation __dfp_op \
     __attribute__ ((cleanup (__dfp_end_operation))) = __dfp_begin_operation ()
+// The same for an operation with a binary result, which is rounded in the
+// binary rounding direction.
+#define BID_TO_BINARY_OPERATION \
+  struct __dfp_operation __dfp_op \
+    __attribute__ ((cleanup (__dfp_end_operation))) = __dfp_begin_to_binary ()
 // End libdfp options
 
 // Configuration Options
diff --git a/libbid/bid_decimal_globals.c b/libbid/bid_decimal_globals.c
index 61f2965..dec2815 100644
--- a/libbid/bid_decimal_globals.c
+++ b/libbid/bid_decimal_globals.c
@@ -105,10 +105,30 @@ __dfp_begin_operation (void) {
   if (op.round != FE_TONEAREST)
     fesetround (FE_TONEAREST);
   op.glbflags = _IDEC_glbflags;
+  op.glbround = _IDEC_glbround;
   _IDEC_glbflags = EXACT_STATUS;
   return op;
 }
 
+struct __dfp_operation
+__dfp_begin_to_binary (void) {
+  struct __dfp_operation op = __dfp_begin_operation ();
+
+  switch (op.round) {
+#ifdef FE_DOWNWARD
+  case FE_DOWNWARD: _IDEC_glbround = ROUNDING_DOWN; break;
+#endif
+#ifdef FE_UPWARD
+  case FE_UPWARD: _IDEC_glbround = ROUNDING_UP; break;
+#endif
+#ifdef FE_TOWARDZERO
+  case FE_TOWARDZERO: _IDEC_glbround = ROUNDING_TO_ZERO; break;
+#endif
+  default: _IDEC_glbround = ROUNDING_TO_NEAREST;
+  }
+  return op;
+}
+
 void
 __dfp_end_operation (struct __dfp_operation *op) {
   int before = op->fenv | to_fenv (_IDEC_glbflags);
@@ -121,6 +141,7 @@ __dfp_end_operation (struct __dfp_operation *op) {
   if (before & ~now)
     fesetexcept (before & ~now);
   _IDEC_glbflags |= op->glbflags;
+  _IDEC_glbround = op->glbround;
 }
 #endif
 #endif
-- 
2.43.0


From 3aad9801fc6bfaa2ecea8fe6a9cf8fb0d6f86b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 47/48] fix: place printf's thousands separators as the
 locale's grouping says, none before the first digit

---
 printf-hooks/printf_dfp.c | 42 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 876232b..8a288f0 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -93,6 +93,37 @@ padn (FILE *fp, int pad, int count)
   return written;
 }
 
+/* Whether the last COUNT digits of the integral part start a group, where
+   GROUPING is the specification found in the locale.  */
+static int
+starts_group (const char *grouping, int count)
+{
+  while (*grouping > 0 && *grouping != CHAR_MAX)
+    {
+      if (count <= *grouping)
+	return count == *grouping;
+      count -= *grouping;
+      /* The last element is used again for the remaining digits.  */
+      if (grouping[1] != '\0')
+	grouping++;
+    }
+
+  return 0;
+}
+
+/* The number of separators within an integral part of COUNT digits.  There is
+   none in front of the first digit.  */
+static int
+separators (const char *grouping, int count)
+{
+  int written = 0;
+
+  while (--count > 0)
+    written += starts_group (grouping, count);
+
+  return written;
+}
+
 #ifdef COMPILE_WIDE
 # ifndef L
 #  define L(c) L##c
@@ -444,6 +475,7 @@ __printf_dfp (FILE *fp,
    input_prec = 0,   /* Precision of the _Decimal* value.  */
    mw,           /* Mantissa Width  */
    n,            /* Current digit offset into digits[] */
+   first,        /* Offset of the first digit that is printed */
    nd,           /* num_digits before the get_digits call. */
    width,        /* Width of the field */
    is_zero = 0;  /* Used in some of the output tests.  */
@@ -769,7 +801,7 @@ __printf_dfp (FILE *fp,
   if (n < decpt)
     {
       width -= decpt - n;
-      if (grouping) width -= (decpt-n)/3;
+      if (grouping) width -= separators (grouping, decpt - n);
     }
   else width--;  /* none to the left of the decimal point */
 
@@ -816,6 +848,8 @@ __printf_dfp (FILE *fp,
 	}
     }
 
+  first = n;
+
   /* Print the digits.  If decpt exceeds mw then we know that
    * they're simply trailing zeros and we don't need to display them.  */
   while (n < mw && n < decpt + prec)
@@ -824,7 +858,8 @@ __printf_dfp (FILE *fp,
       {
 	outchar (wide ? decimalwc.wc : *decimal);
       }
-      else if (grouping && n < decpt && (decpt-n)%3 == 0)
+      else if (grouping && n > first && n < decpt
+	       && starts_group (grouping, decpt - n))
 	outchar (wide ? thousands_sepwc : *thousands_sep);
       outchar (digits[n]);
       n++;
@@ -835,7 +870,8 @@ __printf_dfp (FILE *fp,
     {
       if (n == decpt)
 	outchar (wide ? decimalwc.wc : *decimal);
-      else if (grouping && n < decpt && (decpt-n)%3 == 0)
+      else if (grouping && n > first && n < decpt
+	       && starts_group (grouping, decpt - n))
 	outchar (wide ? thousands_sepwc : *thousands_sep);
       outchar ('0');
       n++;
-- 
2.43.0


From 98d36607020f6e8b271e33fb3e7df61186e482e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 48/48] fix: write every byte of a radix character or thousands
 separator

---
 printf-hooks/printf_dfp.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 8a288f0..fd59051 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -161,6 +161,20 @@ separators (const char *grouping, int count)
       ++done;								      \
     } while (0)
 
+/* A radix character or thousands separator can take several bytes.  */
+#define outsep(wc, mb)							      \
+  do									      \
+    {									      \
+      if (wide)								      \
+	outchar (wc);							      \
+      else								      \
+	{								      \
+	  const char *outs = (mb);					      \
+	  while (*outs != '\0')						      \
+	    outchar (*outs++);						      \
+	}								      \
+    } while (0)
+
 #define PADN(ch, len)							      \
   do									      \
     {									      \
@@ -839,7 +853,7 @@ __printf_dfp (FILE *fp,
       outchar ('0');
       if (n < 0)
 	{
-	  outchar (wide ? decimalwc.wc : *decimal);
+	  outsep (decimalwc.wc, decimal);
 	  while (n < 0 && n < decpt + prec)
 	    {
 	      outchar ('0');
@@ -856,11 +870,11 @@ __printf_dfp (FILE *fp,
     {
       if (n == decpt)
       {
-	outchar (wide ? decimalwc.wc : *decimal);
+	outsep (decimalwc.wc, decimal);
       }
       else if (grouping && n > first && n < decpt
 	       && starts_group (grouping, decpt - n))
-	outchar (wide ? thousands_sepwc : *thousands_sep);
+	outsep (thousands_sepwc, thousands_sep);
       outchar (digits[n]);
       n++;
     }
@@ -869,16 +883,16 @@ __printf_dfp (FILE *fp,
   while (n < decpt + prec)
     {
       if (n == decpt)
-	outchar (wide ? decimalwc.wc : *decimal);
+	outsep (decimalwc.wc, decimal);
       else if (grouping && n > first && n < decpt
 	       && starts_group (grouping, decpt - n))
-	outchar (wide ? thousands_sepwc : *thousands_sep);
+	outsep (thousands_sepwc, thousands_sep);
       outchar ('0');
       n++;
     }
 
   /* print decimal point, if needed */
-  if (n == decpt && info->alt) outchar (wide ? decimalwc.wc : *decimal);
+  if (n == decpt && info->alt) outsep (decimalwc.wc, decimal);
 
   /* Don't display the exponent part for 'f' because it is never used and don't
    * do it for 'g' if the value is zero.  */
-- 
2.43.0

