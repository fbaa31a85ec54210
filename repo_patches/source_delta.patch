From 0e6358d8e380bc57f58352a0589e3702ca74fec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 01/46] fix: box_deserialize_raw takes the size argument the
 generic layer passes

---
 box/box.h                | 2 +-
 box/box_representation.c | 2 +-
 box/box_representation.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/box/box.h b/box/box.h
index c248c2c..01f7bf1 100644
--- a/box/box.h
+++ b/box/box.h
@@ -91,7 +91,7 @@ ap_membuf_t box_serialize_raw(ap_manager_t* man, box_t* a);
    of bytes written.  It is the user responsability to free the memory
    afterwards (with free). */
 
-box_t* box_deserialize_raw(ap_manager_t* man, void* ptr);
+box_t* box_deserialize_raw(ap_manager_t* man, void* ptr, size_t* size);
 /* Return the box value read in raw binary format from the input stream
    and store in size the number of bytes read */
 /* ********************************************************************** */
diff --git a/box/box_representation.c b/box/box_representation.c
index c52b098..79dfb97 100644
--- a/box/box_representation.c
+++ b/box/box_representation.c
@@ -319,7 +319,7 @@ ap_membuf_t box_serialize_raw(ap_manager_t* man, box_t* a)
 
 /* Return the abstract value read in raw binary format from the input stream
    and store in size the number of bytes read */
-box_t* box_deserialize_raw(ap_manager_t* man, void* ptr)
+box_t* box_deserialize_raw(ap_manager_t* man, void* ptr, size_t* size)
 {
   ap_manager_raise_exception(man,AP_EXC_NOT_IMPLEMENTED,AP_FUNID_DESERIALIZE_RAW,"");
   return NULL;
diff --git a/box/box_representation.h b/box/box_representation.h
index 787964e..23a0f80 100644
--- a/box/box_representation.h
+++ b/box/box_representation.h
@@ -38,7 +38,7 @@ void box_printdiff(FILE* stream,
 
 /* 4. Serialization */
 ap_membuf_t box_serialize_raw(ap_manager_t* man, box_t* a);
-box_t* box_deserialize_raw(ap_manager_t* man, void* ptr);
+box_t* box_deserialize_raw(ap_manager_t* man, void* ptr, size_t* size);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From d71759c8ee7b8ead49d1375d1695d544b9044ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 02/46] fix: taylor1plus operations have the types the generic
 layer calls them with

---
 taylor1plus/t1p_constructor.c    | 16 ++++++++--------
 taylor1plus/t1p_constructor.h    | 18 +++++++++---------
 taylor1plus/t1p_otherops.c       | 11 +++++------
 taylor1plus/t1p_otherops.h       | 11 +++++------
 taylor1plus/t1p_representation.c |  4 ++--
 taylor1plus/t1p_representation.h |  4 ++--
 6 files changed, 31 insertions(+), 33 deletions(-)

diff --git a/taylor1plus/t1p_constructor.c b/taylor1plus/t1p_constructor.c
index a3c8f96..b751f93 100644
--- a/taylor1plus/t1p_constructor.c
+++ b/taylor1plus/t1p_constructor.c
@@ -94,7 +94,7 @@ ap_dimension_t t1p_dimension(ap_manager_t* man, t1p_t* a)
 }
 
 /* 3.Tests */
-tbool_t t1p_is_bottom(ap_manager_t* man, t1p_t* a)
+bool t1p_is_bottom(ap_manager_t* man, t1p_t* a)
 {
     CALL();
     size_t i;
@@ -108,7 +108,7 @@ tbool_t t1p_is_bottom(ap_manager_t* man, t1p_t* a)
     return tbool_of_bool(res);
 }
 
-tbool_t t1p_is_top(ap_manager_t* man, t1p_t* a)
+bool t1p_is_top(ap_manager_t* man, t1p_t* a)
 {
     CALL();
     t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_IS_TOP);
@@ -122,7 +122,7 @@ tbool_t t1p_is_top(ap_manager_t* man, t1p_t* a)
     return tbool_of_bool(res);
 }
 
-tbool_t t1p_is_eq(ap_manager_t* man, t1p_t* a, t1p_t* b)
+bool t1p_is_eq(ap_manager_t* man, t1p_t* a, t1p_t* b)
 {
     CALL();
     t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_IS_EQ);
@@ -147,7 +147,7 @@ tbool_t t1p_is_eq(ap_manager_t* man, t1p_t* a, t1p_t* b)
     }
 }
 
-tbool_t t1p_is_leq(ap_manager_t* man, t1p_t* a, t1p_t* b)
+bool t1p_is_leq(ap_manager_t* man, t1p_t* a, t1p_t* b)
 {
     CALL();
     t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_IS_LEQ);
@@ -236,28 +236,28 @@ tbool_t t1p_is_leq(ap_manager_t* man, t1p_t* a, t1p_t* b)
 }
 
 
-tbool_t t1p_is_dimension_unconstrained(ap_manager_t* man, t1p_t* a, ap_dim_t dim)
+bool t1p_is_dimension_unconstrained(ap_manager_t* man, t1p_t* a, ap_dim_t dim)
 {
     CALL();
 	t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_IS_DIMENSION_UNCONSTRAINED);
 	not_implemented();
 }
 
-tbool_t t1p_sat_tcons(ap_manager_t* man, t1p_t* a, ap_tcons0_t* tcons)
+bool t1p_sat_tcons(ap_manager_t* man, t1p_t* a, ap_tcons0_t* tcons)
 {
     CALL();
 	t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_SAT_TCONS);
 	not_implemented();
 }
 
-tbool_t t1p_sat_interval(ap_manager_t* man, t1p_t* a, ap_interval_t* interval)
+bool t1p_sat_interval(ap_manager_t* man, t1p_t* a, ap_dim_t dim, ap_interval_t* interval)
 {
     CALL();
 	t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_SAT_INTERVAL);
 	not_implemented();
 }
 
-tbool_t t1p_sat_lincons(ap_manager_t* man, t1p_t* a, ap_lincons0_t* lincons)
+bool t1p_sat_lincons(ap_manager_t* man, t1p_t* a, ap_lincons0_t* lincons)
 {
     CALL();
 	t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_SAT_LINCONS);
diff --git a/taylor1plus/t1p_constructor.h b/taylor1plus/t1p_constructor.h
index 207a1ef..1460d33 100644
--- a/taylor1plus/t1p_constructor.h
+++ b/taylor1plus/t1p_constructor.h
@@ -33,15 +33,15 @@ t1p_t* t1p_of_box(ap_manager_t* man, size_t intdim, size_t realdim, ap_interval_
 ap_dimension_t t1p_dimension(ap_manager_t* man, t1p_t* a);
 
 /* 3.Tests */
-tbool_t t1p_is_bottom(ap_manager_t* man, t1p_t* a);
-tbool_t t1p_is_top(ap_manager_t* man, t1p_t* a);
-
-tbool_t t1p_is_leq(ap_manager_t* man, t1p_t* a, t1p_t* b);
-tbool_t t1p_is_eq(ap_manager_t* man, t1p_t* a, t1p_t* b);
-tbool_t t1p_is_dimension_unconstrained(ap_manager_t* man, t1p_t* a, ap_dim_t dim);
-tbool_t t1p_sat_lincons(ap_manager_t* man, t1p_t* a, ap_lincons0_t* lincons);
-tbool_t t1p_sat_interval(ap_manager_t* man, t1p_t* a, ap_interval_t* interval);
-tbool_t t1p_sat_tcons(ap_manager_t* man, t1p_t* a, ap_tcons0_t* tcons);
+bool t1p_is_bottom(ap_manager_t* man, t1p_t* a);
+bool t1p_is_top(ap_manager_t* man, t1p_t* a);
+
+bool t1p_is_leq(ap_manager_t* man, t1p_t* a, t1p_t* b);
+bool t1p_is_eq(ap_manager_t* man, t1p_t* a, t1p_t* b);
+bool t1p_is_dimension_unconstrained(ap_manager_t* man, t1p_t* a, ap_dim_t dim);
+bool t1p_sat_lincons(ap_manager_t* man, t1p_t* a, ap_lincons0_t* lincons);
+bool t1p_sat_interval(ap_manager_t* man, t1p_t* a, ap_dim_t dim, ap_interval_t* interval);
+bool t1p_sat_tcons(ap_manager_t* man, t1p_t* a, ap_tcons0_t* tcons);
 
 /* 4.Extraction of properties */
 ap_interval_t* t1p_bound_texpr(ap_manager_t* man, t1p_t* a, ap_texpr0_t* expr);
diff --git a/taylor1plus/t1p_otherops.c b/taylor1plus/t1p_otherops.c
index f8158d4..66347e3 100644
--- a/taylor1plus/t1p_otherops.c
+++ b/taylor1plus/t1p_otherops.c
@@ -52,19 +52,18 @@ t1p_t* t1p_forget_array(ap_manager_t* man,
     return res;
 }
 
-t1p_t t1p_expand(ap_manager_t* man,
+t1p_t* t1p_expand(ap_manager_t* man,
 		bool destructive, t1p_t* a,
-		ap_var_t var,
-		ap_var_t* tvar, size_t size)
+		ap_dim_t dim, size_t n)
 {
     CALL();
     t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_EXPAND);
     not_implemented();
 }
 
-t1p_t t1p_fold(ap_manager_t* man,
+t1p_t* t1p_fold(ap_manager_t* man,
 		bool destructive, t1p_t* a,
-		ap_var_t* tvar, size_t size)
+		ap_dim_t* tdim, size_t size)
 {
     CALL();
     t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_FOLD);
@@ -271,7 +270,7 @@ t1p_t* t1p_widening_old(ap_manager_t* man, t1p_t* a1, t1p_t* a2)
     return res;
 }
 
-t1p_t t1p_closure(ap_manager_t* man, bool destructive, t1p_t* a)
+t1p_t* t1p_closure(ap_manager_t* man, bool destructive, t1p_t* a)
 {
     CALL();
     t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_CLOSURE);
diff --git a/taylor1plus/t1p_otherops.h b/taylor1plus/t1p_otherops.h
index 546fe6d..3d7109a 100644
--- a/taylor1plus/t1p_otherops.h
+++ b/taylor1plus/t1p_otherops.h
@@ -29,20 +29,19 @@ t1p_t* t1p_forget_array(ap_manager_t* man,
 		ap_dim_t* tdim, size_t size,
 		bool project);
 
-t1p_t t1p_expand(ap_manager_t* man,
+t1p_t* t1p_expand(ap_manager_t* man,
 		bool destructive, t1p_t* a,
-		ap_var_t var,
-		ap_var_t* tvar, size_t size);
+		ap_dim_t dim, size_t n);
 
-t1p_t t1p_fold(ap_manager_t* man,
+t1p_t* t1p_fold(ap_manager_t* man,
 		bool destructive, t1p_t* a,
-		ap_var_t* tvar, size_t size);
+		ap_dim_t* tdim, size_t size);
 
 t1p_t* t1p_widening(ap_manager_t* man,
 		  t1p_t* a1, 
 		  t1p_t* a2);
 
-t1p_t t1p_closure(ap_manager_t* man, bool destructive, t1p_t* a);
+t1p_t* t1p_closure(ap_manager_t* man, bool destructive, t1p_t* a);
 
 /* retourne [0,+oo] */
 /* for internal use */
diff --git a/taylor1plus/t1p_representation.c b/taylor1plus/t1p_representation.c
index e8e3c31..f725d18 100644
--- a/taylor1plus/t1p_representation.c
+++ b/taylor1plus/t1p_representation.c
@@ -285,14 +285,14 @@ void t1p_fdump(FILE* stream, ap_manager_t* man, t1p_t* a)
 /* ********************************************************************** */
 /* 4. Serialisation */
 /* ********************************************************************** */
-void t1p_serialize_raw(ap_manager_t* man, t1p_t* a)
+ap_membuf_t t1p_serialize_raw(ap_manager_t* man, t1p_t* a)
 {
     CALL();
 	t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_SERIALIZE_RAW);
 	not_implemented();
 }
 
-void t1p_deserialize_raw(ap_manager_t* man, t1p_t* a)
+t1p_t* t1p_deserialize_raw(ap_manager_t* man, void* ptr, size_t* size)
 {
     CALL();
 	t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_DESERIALIZE_RAW);
diff --git a/taylor1plus/t1p_representation.h b/taylor1plus/t1p_representation.h
index 4761de4..620c897 100644
--- a/taylor1plus/t1p_representation.h
+++ b/taylor1plus/t1p_representation.h
@@ -62,9 +62,9 @@ void t1p_fdump(FILE* stream, ap_manager_t* man, t1p_t* a);
 /* ********************************************************************** */
 /* 4. Serialisation */
 /* ********************************************************************** */
-void t1p_serialize_raw(ap_manager_t* man, t1p_t* a);
+ap_membuf_t t1p_serialize_raw(ap_manager_t* man, t1p_t* a);
 
-void t1p_deserialize_raw(ap_manager_t* man, t1p_t* a);
+t1p_t* t1p_deserialize_raw(ap_manager_t* man, void* ptr, size_t* size);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From fb4b38615fca60690ee1111e0badd2f9861e5a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 03/46] fix: the reduced product calls add_ray_array, hash and
 bottom with their types

---
 apron/ap_reducedproduct.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apron/ap_reducedproduct.c b/apron/ap_reducedproduct.c
index 6b19fea..6a48cab 100644
--- a/apron/ap_reducedproduct.c
+++ b/apron/ap_reducedproduct.c
@@ -135,7 +135,7 @@ static void set_bottom(ap_reducedproduct_internal_t* intern,
 	void (*free)(ap_manager_t*,void*) = man->funptr[AP_FUNID_FREE];
 	free(man,a->p[i]);
       }
-      void* (*bottom)(ap_manager_t*,int,int) = man->funptr[AP_FUNID_BOTTOM];
+      void* (*bottom)(ap_manager_t*,size_t,size_t) = man->funptr[AP_FUNID_BOTTOM];
       a->p[i] = bottom(man, dim.intdim, dim.realdim);
     }
   }
@@ -225,7 +225,7 @@ int ap_reducedproduct_hash(ap_manager_t* manager, ap_reducedproduct_t* a)
 
   for (i=0;i<intern->size;i++){
     ap_manager_t* man = intern->tmanagers[i];
-    size_t (*ptr)(ap_manager_t*,void*) = man->funptr[AP_FUNID_HASH];
+    int (*ptr)(ap_manager_t*,void*) = man->funptr[AP_FUNID_HASH];
     res += ptr(man,a->p[i]);
   }
   collect_results0(manager);
@@ -837,7 +837,7 @@ ap_reducedproduct_t* ap_reducedproduct_meet_tcons_array(ap_manager_t* manager,
 }
 ap_reducedproduct_t* ap_reducedproduct_add_ray_array(ap_manager_t* manager,
 							   bool destructive, ap_reducedproduct_t* a,
-							   ap_lincons0_array_t* array)
+							   ap_generator0_array_t* array)
 {
   ap_reducedproduct_internal_t* intern =
     get_internal_init1(manager,AP_FUNID_ADD_RAY_ARRAY,a);
@@ -848,7 +848,7 @@ ap_reducedproduct_t* ap_reducedproduct_add_ray_array(ap_manager_t* manager,
 
   for (i=0;i<intern->size;i++){
     ap_manager_t* man = intern->tmanagers[i];
-    void* (*ptr)(ap_manager_t*,bool,void*,ap_lincons0_array_t*) = man->funptr[AP_FUNID_ADD_RAY_ARRAY];
+    void* (*ptr)(ap_manager_t*,bool,void*,ap_generator0_array_t*) = man->funptr[AP_FUNID_ADD_RAY_ARRAY];
     res->p[i] = ptr(man,destructive,a->p[i],array);
   }
   res->reduced = a->reduced;
-- 
2.43.0


From 9f165d1433ca320e82fcf729f1171b4bae2f49f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 04/46] fix: ap_disjunction calls is_bottom and add_ray_array
 with their types

---
 apron/ap_disjunction.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apron/ap_disjunction.c b/apron/ap_disjunction.c
index 3a2fa2b..ab1c9b0 100644
--- a/apron/ap_disjunction.c
+++ b/apron/ap_disjunction.c
@@ -236,8 +236,8 @@ void ap_disjunction_canonicalize(ap_manager_t* manager,
     canonicalize(man, a->p[i]);
   }
 }
-long ap_disjunction_hash(ap_manager_t* manager,
-			 ap_disjunction_t* a)
+int ap_disjunction_hash(ap_manager_t* manager,
+			ap_disjunction_t* a)
 {
   ap_manager_raise_exception(manager, AP_EXC_NOT_IMPLEMENTED, AP_FUNID_HASH, NULL);
   return 0;
@@ -824,7 +824,7 @@ ap_disjunction_t* ap_disjunction_meet(ap_manager_t* manager, bool destructive,
   ap_disjunction_internal_t* intern = get_internal(manager);
   ap_manager_t* man = intern->manager;
   void* (*meet)(ap_manager_t*, bool, void*, void*) = man->funptr[AP_FUNID_MEET];
-  void* (*is_bottom)(ap_manager_t*, void*) = man->funptr[AP_FUNID_IS_BOTTOM];
+  bool (*is_bottom)(ap_manager_t*, void*) = man->funptr[AP_FUNID_IS_BOTTOM];
 
   ap_disjunction_elim_redundant(intern, a1);
   ap_disjunction_elim_redundant(intern, a2);
@@ -916,14 +916,14 @@ ap_disjunction_t* ap_disjunction_meet_tcons_array(ap_manager_t* manager,bool des
 //  ????????????????????????
 /* ************************************************************************ */
 ap_disjunction_t* ap_disjunction_add_ray_array(ap_manager_t* manager,
-					       bool destructive, ap_disjunction_t* a, ap_lincons0_array_t* array)
+					       bool destructive, ap_disjunction_t* a, ap_generator0_array_t* array)
 {
   ap_disjunction_internal_t* intern = get_internal(manager);
   ap_manager_t* man = intern->manager;
 
   ap_disjunction_t* res= destructive ? a : ap_disjunction_alloc(a->size);
 
-  void* (*ptr)(ap_manager_t*, bool, void*, ap_lincons0_array_t*) = man->funptr[AP_FUNID_ADD_RAY_ARRAY];
+  void* (*ptr)(ap_manager_t*, bool, void*, ap_generator0_array_t*) = man->funptr[AP_FUNID_ADD_RAY_ARRAY];
 
   size_t i;
   for (i = 0; i < a->size; i++) {
-- 
2.43.0


From 4148e8b6136c44f845bcbe10c533d6f2f2af6e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 05/46] fix: ap_disjunction installs its printing and
 serialization operations

---
 apron/ap_disjunction.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/apron/ap_disjunction.c b/apron/ap_disjunction.c
index ab1c9b0..69f29fa 100644
--- a/apron/ap_disjunction.c
+++ b/apron/ap_disjunction.c
@@ -299,6 +299,27 @@ void ap_disjunction_fdump(FILE* stream, ap_manager_t* manager,
   }
 }
 
+/* ============================================================ */
+/* I.4 Serialization */
+/* ============================================================ */
+
+ap_membuf_t ap_disjunction_serialize_raw(ap_manager_t* manager,
+					 ap_disjunction_t* a)
+{
+  ap_membuf_t res;
+  ap_manager_raise_exception(manager, AP_EXC_NOT_IMPLEMENTED, AP_FUNID_SERIALIZE_RAW, NULL);
+  res.ptr = NULL;
+  res.size = 0;
+  return res;
+}
+
+ap_disjunction_t* ap_disjunction_deserialize_raw(ap_manager_t* manager,
+						 void* ptr, size_t* size)
+{
+  ap_manager_raise_exception(manager, AP_EXC_NOT_IMPLEMENTED, AP_FUNID_DESERIALIZE_RAW, NULL);
+  return NULL;
+}
+
 /* ********************************************************************** */
 /* II. Constructor, accessory, tests and property extraction */
 /* ********************************************************************** */
@@ -1290,6 +1311,11 @@ ap_manager_t* ap_disjunction_manager_alloc(
   funptr[AP_FUNID_CANONICALIZE] = &ap_disjunction_canonicalize;
   funptr[AP_FUNID_HASH] = &ap_disjunction_hash;
   funptr[AP_FUNID_APPROXIMATE] = &ap_disjunction_approximate;
+  funptr[AP_FUNID_FPRINT] = &ap_disjunction_fprint;
+  funptr[AP_FUNID_FPRINTDIFF] = &ap_disjunction_fprintdiff;
+  funptr[AP_FUNID_FDUMP] = &ap_disjunction_fdump;
+  funptr[AP_FUNID_SERIALIZE_RAW] = &ap_disjunction_serialize_raw;
+  funptr[AP_FUNID_DESERIALIZE_RAW] = &ap_disjunction_deserialize_raw;
   funptr[AP_FUNID_BOTTOM] = &ap_disjunction_bottom;
   funptr[AP_FUNID_TOP] = &ap_disjunction_top;
   funptr[AP_FUNID_OF_BOX] = &ap_disjunction_of_box;
-- 
2.43.0


From 05102742a33f44a489895339daef5eb875f3823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 06/46] fix: the reduced product keeps the text of its
 components' exceptions

---
 apron/ap_reducedproduct.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apron/ap_reducedproduct.c b/apron/ap_reducedproduct.c
index 6a48cab..5007af3 100644
--- a/apron/ap_reducedproduct.c
+++ b/apron/ap_reducedproduct.c
@@ -86,8 +86,8 @@ void collect_results0(ap_manager_t* manager)
       while (true){
         size_t sz = strlen(man->library)+(last->msg ? strlen(last->msg) : 0)+3;
 	char* buffer = malloc(sz);
-	snprintf(buffer,sizeof(sz),"%s: %s",
-		man->library,(last->msg ? "" : last->msg));
+	snprintf(buffer,sz,"%s: %s",
+		man->library,(last->msg ? last->msg : ""));
 	if (last->msg) free(last->msg);
 	last->msg = buffer;
 	if (last->tail)
-- 
2.43.0


From 513b1105b3542fae3230a2f09b825a41a79597c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 07/46] fix: itv_snprint stops when its buffer is full and
 counts the upper bound

---
 itv/itv.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/itv/itv.c b/itv/itv.c
index 6488a14..c5bdefc 100644
--- a/itv/itv.c
+++ b/itv/itv.c
@@ -671,7 +671,8 @@ int ITVFUN(itv_snprint)(char* s, size_t size, itv_t a)
   num_t num;
   int count = 0;
 
-  count += snprintf(s+count,size-count,"[");
+  count += snprintf(s,size,"[");
+  if ((size_t)count>=size) return count;
   if (bound_infty(a->inf))
     count += snprintf(s+count,size-count,"-oo");
   else {
@@ -680,8 +681,11 @@ int ITVFUN(itv_snprint)(char* s, size_t size, itv_t a)
     count += num_snprint(s+count,size-count,num);
     num_clear(num);
   }
+  if ((size_t)count>=size) return count;
   count += snprintf(s+count,size-count,",");
-  bound_snprint(s+count,size-count,a->sup);
+  if ((size_t)count>=size) return count;
+  count += bound_snprint(s+count,size-count,a->sup);
+  if ((size_t)count>=size) return count;
   count += snprintf(s+count,size-count,"]");
   return count;
 }
-- 
2.43.0


From 3879efd5d083393dfcdd883290a55d178ede7326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 08/46] fix: poly_chernikova3 counts no calls in a variable
 shared by all managers

---
 newpolka/pk_representation.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/newpolka/pk_representation.c b/newpolka/pk_representation.c
index ec6a870..08acaf7 100644
--- a/newpolka/pk_representation.c
+++ b/newpolka/pk_representation.c
@@ -250,12 +250,10 @@ void poly_chernikova2(ap_manager_t* man,
 
 /* Same as poly_chernikova2, but in addition normalize matrices by Gauss
    elimination and sorting */
-static int counter = 0;
 void poly_chernikova3(ap_manager_t* man,
 		      pk_t* po,
 		      char* msg)
 {
-  counter++;
   pk_internal_t* pk = (pk_internal_t*)man->internal;
   poly_chernikova2(man,po,msg);
   if (pk->exn)
-- 
2.43.0


From 1c31b97db01b0d2dde26196c5e4c0fb89b5d09c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 09/46] fix: avoct keeps its note-printed flag in the manager,
 not in a global

---
 avoct/avo_internal.h       | 9 +++++----
 avoct/avo_predicate.c      | 2 --
 avoct/avo_representation.c | 1 +
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/avoct/avo_internal.h b/avoct/avo_internal.h
index f39e44e..e382e42 100755
--- a/avoct/avo_internal.h
+++ b/avoct/avo_internal.h
@@ -26,8 +26,6 @@
 extern "C" {
 #endif
 
-extern int abs_print_hint_flag; 
-  /* print 11x to denote abs(x), i.e., |x| */
 extern int avo_closure_alg;
 /* 0 (default): WeakCloVia1Sign(i.e., enumerating the signs of 1 variables each time) */
 /* 1: WeakCloVia3Sign(i.e., enumerating the signs of 3 variables each time)           */
@@ -56,6 +54,9 @@ struct _avo_internal_t {
   */
   bool conv;
 
+  /* whether the note on the 11x notation was printed */
+  bool hint_printed;
+
   /* back-pointer */
   ap_manager_t* man;
 };
@@ -577,9 +578,9 @@ static inline ap_lincons0_t avo_lincons_of_bound(avo_internal_t* pr,
 					     size_t i, size_t j, 
 					     bound_t m,bound_t m1,size_t dim)
 {
-  if (abs_print_hint_flag==0){
+  if (!pr->hint_printed){
 	fprintf(stdout, "/* Note that we use 11x to denote abs(x), i.e., |x| */\n"); 
-	abs_print_hint_flag=1;
+	pr->hint_printed=true;
   }
   ap_linexpr0_t* e;
   if (i==j) {
diff --git a/avoct/avo_predicate.c b/avoct/avo_predicate.c
index c19628f..3355367 100755
--- a/avoct/avo_predicate.c
+++ b/avoct/avo_predicate.c
@@ -19,8 +19,6 @@
 #include "ap_generic.h"
 
 
-int abs_print_hint_flag = 0; 
-  /* print 11x to denote abs(x), i.e., |x| */
 
 /* ============================================================ */
 /* Tests */
diff --git a/avoct/avo_representation.c b/avoct/avo_representation.c
index 8c746fb..209eae8 100755
--- a/avoct/avo_representation.c
+++ b/avoct/avo_representation.c
@@ -362,6 +362,7 @@ ap_manager_t* avo_manager_alloc(void)
   bound_init_array(pr->tmp,pr->tmp_size);
   pr->tmp2 = malloc(sizeof(long)*pr->tmp_size);
   assert(pr->tmp2);
+  pr->hint_printed = false;
 
   man = ap_manager_alloc("avo","1.0 with " num_name,pr,
 			 (void (*)(void*))avo_internal_free);
-- 
2.43.0


From 2f0d440e382dc7dc6c86e028d395582e46df8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 10/46] fix: operations that have nothing to do still write the
 exactness flags

---
 apron/ap_abstract0.c | 30 ++++++++++++++++++++----------
 apron/ap_abstract1.c | 15 +++++++--------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index a5cd333..6236207 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -751,11 +751,15 @@ bool ap_abstract0_is_top(ap_manager_t* man, ap_abstract0_t* a)
 bool ap_abstract0_is_leq(ap_manager_t* man, ap_abstract0_t* a1, ap_abstract0_t* a2)
 {
   if (a1==a2){
+    man->result.flag_exact = man->result.flag_best = true;
     return true;
   }
   else if (ap_abstract0_checkman2(AP_FUNID_IS_LEQ,man,a1,a2) &&
 	   ap_abstract0_check_abstract2(AP_FUNID_IS_LEQ,man,a1,a2)){
-    if (a1->value==a2->value) return true;
+    if (a1->value==a2->value){
+      man->result.flag_exact = man->result.flag_best = true;
+      return true;
+    }
     bool (*ptr)(ap_manager_t*,void*,void*) = man->funptr[AP_FUNID_IS_LEQ];
     return ptr(man,a1->value,a2->value);
   }
@@ -767,11 +771,15 @@ bool ap_abstract0_is_leq(ap_manager_t* man, ap_abstract0_t* a1, ap_abstract0_t*
 bool ap_abstract0_is_eq(ap_manager_t* man, ap_abstract0_t* a1, ap_abstract0_t* a2)
 {
   if (a1==a2){
+    man->result.flag_exact = man->result.flag_best = true;
     return true;
   }
   if (ap_abstract0_checkman2(AP_FUNID_IS_EQ,man,a1,a2) &&
       ap_abstract0_check_abstract2(AP_FUNID_IS_EQ,man,a1,a2)){
-    if (a1->value==a2->value) return true;
+    if (a1->value==a2->value){
+      man->result.flag_exact = man->result.flag_best = true;
+      return true;
+    }
     bool (*ptr)(ap_manager_t*,void*,void*) = man->funptr[AP_FUNID_IS_EQ];
     return ptr(man,a1->value,a2->value);
   }
@@ -1065,11 +1073,9 @@ ap_abstract0_t* ap_abstract0_asssub_linexpr_array(ap_funid_t funid,
     if (dest){
       return ap_abstract0_meet(man,destructive,a,dest);
     }
-    else if (destructive){
-      return a;
-    }
     else {
-      return ap_abstract0_copy(man,a);
+      man->result.flag_exact = man->result.flag_best = true;
+      return destructive ? a : ap_abstract0_copy(man,a);
     }
   }
   else {
@@ -1125,11 +1131,9 @@ ap_abstract0_t* ap_abstract0_asssub_texpr_array(ap_funid_t funid,
     if (dest){
       return ap_abstract0_meet(man,destructive,a,dest);
     }
-    else if (destructive){
-      return a;
-    }
     else {
-      return ap_abstract0_copy(man,a);
+      man->result.flag_exact = man->result.flag_best = true;
+      return destructive ? a : ap_abstract0_copy(man,a);
     }
   }
   else {
@@ -1184,6 +1188,7 @@ ap_abstract0_t* ap_abstract0_forget_array(ap_manager_t* man,
 					  bool project)
 {
   if (size==0){
+    man->result.flag_exact = man->result.flag_best = true;
     if (destructive){
       return a;
     }
@@ -1219,6 +1224,7 @@ ap_abstract0_t* ap_abstract0_add_dimensions(ap_manager_t* man,
 					    bool project)
 {
   if (dimchange->intdim+dimchange->realdim==0){
+    man->result.flag_exact = man->result.flag_best = true;
     if (destructive){
       return a;
     }
@@ -1248,6 +1254,7 @@ ap_abstract0_t* ap_abstract0_remove_dimensions(ap_manager_t* man,
 					       ap_dimchange_t* dimchange)
 {
   if (dimchange->intdim+dimchange->realdim==0){
+    man->result.flag_exact = man->result.flag_best = true;
     if (destructive){
       return a;
     }
@@ -1301,6 +1308,7 @@ ap_abstract0_t* ap_abstract0_expand(ap_manager_t* man,
 				    size_t n)
 {
   if (n==0){
+    man->result.flag_exact = man->result.flag_best = true;
     if (destructive){
 	return a;
     }
@@ -1361,6 +1369,7 @@ ap_abstract0_t* ap_abstract0_fold(ap_manager_t* man,
     }
     /* OK now */
     if (size==1){
+      man->result.flag_exact = man->result.flag_best = true;
       if (destructive){
 	return a;
       }
@@ -1510,6 +1519,7 @@ ap_abstract0_t* ap_abstract0_apply_dimchange2(ap_manager_t* man,
     res = ap_abstract0_remove_dimensions(man,destructive,a,dimchange2->remove);
   }
   else {
+    man->result.flag_exact = man->result.flag_best = true;
     res = destructive ? a : ap_abstract0_copy(man,a);
   }
   return res;
diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 07fea65..febb7e5 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -805,11 +805,9 @@ ap_abstract1_t ap_abstract1_asssub_linexpr_array(ap_funid_t funid,
     if (dest){
       return ap_abstract1_meet(man,destructive,a,dest);
     }
-    else if (destructive){
-      return *a;
-    }
     else {
-      return ap_abstract1_copy(man,a);
+      man->result.flag_exact = man->result.flag_best = true;
+      return destructive ? *a : ap_abstract1_copy(man,a);
     }
   }
   else {
@@ -891,11 +889,9 @@ ap_abstract1_t ap_abstract1_asssub_texpr_array(ap_funid_t funid,
     if (dest){
       return ap_abstract1_meet(man,destructive,a,dest);
     }
-    else if (destructive){
-      return *a;
-    }
     else {
-      return ap_abstract1_copy(man,a);
+      man->result.flag_exact = man->result.flag_best = true;
+      return destructive ? *a : ap_abstract1_copy(man,a);
     }
   }
   else {
@@ -1050,6 +1046,7 @@ ap_abstract1_t ap_abstract1_minimize_environment(ap_manager_t* man,
     }
   }
   if (nbdims==0){ /* No change */
+    man->result.flag_exact = man->result.flag_best = true;
     res = destructive ? *a : ap_abstract1_copy(man,a);
   } else {
     env = ap_environment_remove(a->env,tvar,nbdims);
@@ -1110,6 +1107,7 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
 
   /* particular case */
   if (size==0){
+    man->result.flag_exact = man->result.flag_best = true;
     res = destructive ? *a : ap_abstract1_copy(man,a);
     return res;
   }
@@ -1171,6 +1169,7 @@ ap_abstract1_t ap_abstract1_fold(ap_manager_t* man,
     return res;
   }
   else if (size==1){
+    man->result.flag_exact = man->result.flag_best = true;
     res = destructive ? *a : ap_abstract1_copy(man,a);
     return res;
   }
-- 
2.43.0


From 105b3e33905cd312be70a28ad7de622a7fd7680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 11/46] fix: domain operations that left the exactness flags of
 the previous operation write them

---
 apron/ap_disjunction.c        | 3 +++
 apron/ap_generic.c            | 5 ++++-
 box/box_constructor.c         | 2 ++
 fppol/fpp_extract.c           | 1 +
 newpolka/pkeq.c               | 6 ++++++
 taylor1plus/t1p_constructor.c | 1 +
 taylor1plus/t1p_meetjoin.c    | 2 ++
 taylor1plus/t1p_resize.c      | 2 ++
 8 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/apron/ap_disjunction.c b/apron/ap_disjunction.c
index 69f29fa..ee07443 100644
--- a/apron/ap_disjunction.c
+++ b/apron/ap_disjunction.c
@@ -47,6 +47,9 @@ static void ap_disjunction_clear(ap_disjunction_internal_t* intern,
 static inline
 ap_disjunction_internal_t* get_internal(ap_manager_t* manager)
 {
+  /* nothing is known of the exactness of operations on disjunctions */
+  manager->result.flag_exact = false;
+  manager->result.flag_best = false;
   return (ap_disjunction_internal_t*)manager->internal;
 }
 
diff --git a/apron/ap_generic.c b/apron/ap_generic.c
index 761a197..6e86e1b 100644
--- a/apron/ap_generic.c
+++ b/apron/ap_generic.c
@@ -123,7 +123,10 @@ void* ap_generic_meetjoin_array(bool meet,
   void* res;
   bool exact,best;
   if (size==1){
-    return copy(man,tab[0]);
+    res = copy(man,tab[0]);
+    man->result.flag_exact = true;
+    man->result.flag_best = true;
+    return res;
   }
   else {
     res = meetjoin(man,false,tab[0],tab[1]);
diff --git a/box/box_constructor.c b/box/box_constructor.c
index 36e5be7..f197382 100644
--- a/box/box_constructor.c
+++ b/box/box_constructor.c
@@ -159,6 +159,8 @@ bool box_is_eq(ap_manager_t* man, box_t* a, box_t* b)
 
 bool box_is_dimension_unconstrained(ap_manager_t* man, box_t* a, ap_dim_t dim)
 {
+  man->result.flag_best = true;
+  man->result.flag_exact = true;
   return a->p && itv_is_top(a->p[dim]);
 }
 
diff --git a/fppol/fpp_extract.c b/fppol/fpp_extract.c
index 6f74034..380a385 100755
--- a/fppol/fpp_extract.c
+++ b/fppol/fpp_extract.c
@@ -262,6 +262,7 @@ ap_generator0_array_t fpp_to_generator_array(ap_manager_t* man,
 					    fpp_t* a)
 {
   ap_generator0_array_t array = ap_generator0_array_make(0);
+  man->result.flag_exact = man->result.flag_best = false;
    /*box_to_generator_array();*/
    return array;
 }
diff --git a/newpolka/pkeq.c b/newpolka/pkeq.c
index fbe6e99..03addd5 100644
--- a/newpolka/pkeq.c
+++ b/newpolka/pkeq.c
@@ -113,6 +113,8 @@ void pkeq_canonicalize(ap_manager_t* man, pkeq_t* po)
 
 void pkeq_approximate(ap_manager_t* man, pkeq_t* po, int algorithm)
 {
+  man->result.flag_best = true;
+  man->result.flag_exact = true;
   return;
 }
 
@@ -583,6 +585,8 @@ pkeq_t* pkeq_fold(ap_manager_t* man,
 pkeq_t* pkeq_widening(ap_manager_t* man,
 			  pkeq_t* a1, pkeq_t* a2)
 {
+  man->result.flag_best = true;
+  man->result.flag_exact = true;
   return pk_copy(man,a2);
 }
 
@@ -592,6 +596,8 @@ pkeq_t* pkeq_widening(ap_manager_t* man,
 
 pkeq_t* pkeq_closure(ap_manager_t* man, bool destructive, pkeq_t* a)
 {
+  man->result.flag_best = true;
+  man->result.flag_exact = true;
   return destructive ? a : pk_copy(man,a);
 }
 
diff --git a/taylor1plus/t1p_constructor.c b/taylor1plus/t1p_constructor.c
index b751f93..500c5f0 100644
--- a/taylor1plus/t1p_constructor.c
+++ b/taylor1plus/t1p_constructor.c
@@ -276,6 +276,7 @@ ap_interval_t* t1p_bound_dimension(ap_manager_t* man, t1p_t* a, ap_dim_t dim)
 {
     CALL();
     t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_BOUND_DIMENSION);
+    man->result.flag_exact = man->result.flag_best = false;
     ap_interval_t* ap_itv = ap_interval_alloc();
     ap_interval_set_itv(pr->itv, ap_itv, a->box[dim]);
     return ap_itv;
diff --git a/taylor1plus/t1p_meetjoin.c b/taylor1plus/t1p_meetjoin.c
index 42b8e40..0ba6821 100644
--- a/taylor1plus/t1p_meetjoin.c
+++ b/taylor1plus/t1p_meetjoin.c
@@ -300,6 +300,7 @@ t1p_t* t1p_meet_lincons_array(ap_manager_t* man, bool destructive, t1p_t* a, ap_
 {
     CALL();
     t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_MEET_LINCONS_ARRAY);
+    man->result.flag_exact = man->result.flag_best = false;
     arg_assert(a && array, abort(););
 #ifdef _T1P_DEBUG
     fprintf(stdout, "### MEET LINCONS ARRAY (des %d) ###\n",destructive);
@@ -333,6 +334,7 @@ t1p_t* t1p_meet_tcons_array(ap_manager_t* man, bool destructive, t1p_t* a, ap_tc
 {
     CALL();
     t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_MEET_TCONS_ARRAY);
+    man->result.flag_exact = man->result.flag_best = false;
 #ifdef _T1P_DEBUG
     fprintf(stdout, "### MEET TCONS ARRAY (des %d) ###\n",destructive);
     t1p_fprint(stdout, man, a, NULL);
diff --git a/taylor1plus/t1p_resize.c b/taylor1plus/t1p_resize.c
index c33d584..30ac5d7 100644
--- a/taylor1plus/t1p_resize.c
+++ b/taylor1plus/t1p_resize.c
@@ -23,6 +23,7 @@ t1p_t* t1p_add_dimensions(ap_manager_t* man, bool destructive, t1p_t* a, ap_dimc
 {
     CALL();
     t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_ADD_DIMENSIONS);
+    man->result.flag_exact = man->result.flag_best = false;
 #ifdef _T1P_DEBUG
     fprintf(stdout, "### ADD DiMENSIONS (destructive %d) (project %d)###\n",destructive, project);
     t1p_fprint(stdout, man, a, 0x0);
@@ -121,6 +122,7 @@ t1p_t* t1p_permute_dimensions(ap_manager_t* man, bool destructive, t1p_t* a, ap_
 {
     CALL();
     t1p_internal_t* pr = t1p_init_from_manager(man, AP_FUNID_PERMUTE_DIMENSIONS);
+    man->result.flag_exact = man->result.flag_best = false;
 #ifdef _T1P_DEBUG
     fprintf(stdout, "### PERMUTE DiMENSIONS (destructive %d) ###\n",destructive);
     t1p_fprint(stdout, man, a, 0x0);
-- 
2.43.0


From c706ff7c7fa7dce0b1c931837ac27f4fb1abb9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 12/46] fix: C++ abstract0::to_box and abstract1::bound release
 their result when the operation fails

---
 apronxx/apxx_abstract0_inline.hh | 1 +
 apronxx/apxx_abstract1_inline.hh | 1 +
 2 files changed, 2 insertions(+)

diff --git a/apronxx/apxx_abstract0_inline.hh b/apronxx/apxx_abstract0_inline.hh
index f1ac046..375085f 100644
--- a/apronxx/apxx_abstract0_inline.hh
+++ b/apronxx/apxx_abstract0_inline.hh
@@ -476,6 +476,7 @@ inline interval_array abstract0::to_box(manager& m) const
 {
   ap_dimension_t d = ap_abstract0_dimension(m.get_ap_manager_t(), a);
   ap_interval_t** r = ap_abstract0_to_box(m.get_ap_manager_t(), a);
+  if (m.exception_raised() && r) ap_interval_array_free(r, d.intdim+d.realdim);
   m.raise("apron::abstract0::to_box(manager&)");
   return interval_array(d.intdim+d.realdim, r);
 }
diff --git a/apronxx/apxx_abstract1_inline.hh b/apronxx/apxx_abstract1_inline.hh
index 59ab3ac..7d6b957 100644
--- a/apronxx/apxx_abstract1_inline.hh
+++ b/apronxx/apxx_abstract1_inline.hh
@@ -552,6 +552,7 @@ inline interval abstract1::bound(manager& m, const linexpr1& l) const
     ap_abstract1_bound_linexpr(m.get_ap_manager_t(),
 			       const_cast<ap_abstract1_t*>(&a),
 			       const_cast<ap_linexpr1_t*>(l.get_ap_linexpr1_t()));
+  if (m.exception_raised()) ap_interval_free(r);
   m.raise("apron::abstract1::bound(manager&, const linexpr1&)");
   return r;
 }
-- 
2.43.0


From 42da8dba4a4484ad6167abbe2a4302b12a58c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 13/46] fix: the reduced product keeps the flags its components
 report, and gathers flag_best

---
 apron/ap_reducedproduct.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/apron/ap_reducedproduct.c b/apron/ap_reducedproduct.c
index 5007af3..4dcada6 100644
--- a/apron/ap_reducedproduct.c
+++ b/apron/ap_reducedproduct.c
@@ -80,6 +80,7 @@ void collect_results0(ap_manager_t* manager)
     ap_manager_t* man = intern->tmanagers[i];
     ap_result_t* result = &man->result;
     gresult->flag_exact = gresult->flag_exact && result->flag_exact;
+    gresult->flag_best = gresult->flag_best && result->flag_best;
 
     if (result->exclog != NULL){
       ap_exclog_t* last = result->exclog;
@@ -112,6 +113,20 @@ void collect_results1(ap_manager_t* manager, ap_funid_t funid, ap_reducedproduct
   }
 }
 
+/* ------------------------------------------------------------ */
+/* Tests whether the result of a component's operation is empty. The flags that
+   the operation set in the component's manager are kept. */
+static bool component_is_bottom(ap_manager_t* man, void* value)
+{
+  bool (*is_bottom)(ap_manager_t*,void*) = man->funptr[AP_FUNID_IS_BOTTOM];
+  bool flag_exact = man->result.flag_exact;
+  bool flag_best = man->result.flag_best;
+  bool res = is_bottom(man,value);
+  man->result.flag_exact = flag_exact;
+  man->result.flag_best = flag_best;
+  return res;
+}
+
 /* ------------------------------------------------------------ */
 /* Fills the value with bottom.  It is assumed that a->p[index] is already bottom.
    If destructive is true, then a->p[i] for i>index may be not NULL and is cleaned
@@ -369,8 +384,7 @@ ap_reducedproduct_t* ap_reducedproduct_of_box(ap_manager_t* manager,
     ap_manager_t* man = intern->tmanagers[i];
     void* (*ptr)(ap_manager_t*,size_t,size_t,ap_interval_t**) = man->funptr[AP_FUNID_OF_BOX];
     res->p[i] = ptr(man,intdim,realdim,tinterval);
-    bool (*is_bottom)(ap_manager_t*,void*) = man->funptr[AP_FUNID_IS_BOTTOM];
-    if (is_bottom(man,res->p[i])){
+    if (component_is_bottom(man,res->p[i])){
       set_bottom(intern,false,res,i);
       break;
     }
@@ -709,8 +723,7 @@ ap_reducedproduct_t* ap_reducedproduct_meetjoin(ap_funid_t funid,
     void* (*ptr)(ap_manager_t*,bool,void*,void*) = man->funptr[funid];
     res->p[i] = ptr(man,destructive,a1->p[i],a2->p[i]);
     if (funid==AP_FUNID_MEET){
-      bool (*is_bottom)(ap_manager_t*,void*) = man->funptr[AP_FUNID_IS_BOTTOM];
-      if (is_bottom(man,res->p[i])){
+      if (component_is_bottom(man,res->p[i])){
 	set_bottom(intern,destructive,res,i);
 	goto ap_reducedproduct_meetjoin_exit;
       }
@@ -752,8 +765,7 @@ ap_reducedproduct_t* ap_reducedproduct_meetjoin_array(ap_funid_t funid,
     }
     res->p[i] = ptr(man,a,size);
     if (funid==AP_FUNID_MEET_ARRAY){
-      bool (*is_bottom)(ap_manager_t*,void*) = man->funptr[AP_FUNID_IS_BOTTOM];
-      if (is_bottom(man,res->p[i])){
+      if (component_is_bottom(man,res->p[i])){
 	set_bottom(intern,false,res,i);
 	goto ap_reducedproduct_meetjoin_array_exit;
       }
@@ -800,8 +812,7 @@ ap_reducedproduct_t* ap_reducedproduct_meet_lincons_array(ap_manager_t* manager,
     ap_manager_t* man = intern->tmanagers[i];
     void* (*ptr)(ap_manager_t*,bool,void*,ap_lincons0_array_t*) = man->funptr[AP_FUNID_MEET_LINCONS_ARRAY];
     res->p[i] = ptr(man,destructive,a->p[i],array);
-    bool (*is_bottom)(ap_manager_t*,void*) = man->funptr[AP_FUNID_IS_BOTTOM];
-    if (is_bottom(man,res->p[i])){
+    if (component_is_bottom(man,res->p[i])){
       set_bottom(intern,destructive,res,i);
       break;
     }
@@ -825,8 +836,7 @@ ap_reducedproduct_t* ap_reducedproduct_meet_tcons_array(ap_manager_t* manager,
     ap_manager_t* man = intern->tmanagers[i];
     void* (*ptr)(ap_manager_t*,bool,void*,ap_tcons0_array_t*) = man->funptr[AP_FUNID_MEET_TCONS_ARRAY];
     res->p[i] = ptr(man,destructive,a->p[i],array);
-    bool (*is_bottom)(ap_manager_t*,void*) = man->funptr[AP_FUNID_IS_BOTTOM];
-    if (is_bottom(man,res->p[i])){
+    if (component_is_bottom(man,res->p[i])){
       set_bottom(intern,destructive,res,i);
       break;
     }
@@ -880,8 +890,7 @@ ap_reducedproduct_asssub_linexpr_array(ap_funid_t funid,
     void* (*ptr)(ap_manager_t*,bool,void*,ap_dim_t*,ap_linexpr0_t**,size_t,ap_reducedproduct_t*) = man->funptr[funid];
     res->p[i] = ptr(man,destructive,a->p[i],tdim,texpr,size, dest ? dest->p[i] : NULL);
     if (dest || funid==AP_FUNID_SUBSTITUTE_LINEXPR_ARRAY){
-      bool (*is_bottom)(ap_manager_t*,void*) = man->funptr[AP_FUNID_IS_BOTTOM];
-      if (is_bottom(man,res->p[i])){
+      if (component_is_bottom(man,res->p[i])){
 	set_bottom(intern,destructive,res,i);
 	break;
       }
@@ -934,8 +943,7 @@ ap_reducedproduct_asssub_texpr_array(ap_funid_t funid,
     void* (*ptr)(ap_manager_t*,bool,void*,ap_dim_t*,ap_texpr0_t**,size_t,ap_reducedproduct_t*) = man->funptr[funid];
     res->p[i] = ptr(man,destructive,a->p[i],tdim,texpr,size, dest ? dest->p[i] : NULL);
     if (dest || funid==AP_FUNID_SUBSTITUTE_TEXPR_ARRAY){
-      bool (*is_bottom)(ap_manager_t*,void*) = man->funptr[AP_FUNID_IS_BOTTOM];
-      if (is_bottom(man,res->p[i])){
+      if (component_is_bottom(man,res->p[i])){
 	set_bottom(intern,destructive,res,i);
 	break;
       }
-- 
2.43.0


From d612b9c655e75f9885da40513bb904f25fd4d9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 14/46] fix: box_add_ray follows integer lines (AP_GEN_LINEMOD)
 in both directions

---
 box/box_meetjoin.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/box/box_meetjoin.c b/box/box_meetjoin.c
index 813bc95..0badd7f 100644
--- a/box/box_meetjoin.c
+++ b/box/box_meetjoin.c
@@ -119,6 +119,8 @@ void box_add_ray(box_internal_t* intern,
   ap_coeff_t* coeff;
   ap_dim_t dim;
   ap_linexpr0_t* expr;
+  /* directions that can be followed both ways */
+  bool line = gen->gentyp==AP_GEN_LINE || gen->gentyp==AP_GEN_LINEMOD;
 
   assert(gen->gentyp != AP_GEN_VERTEX);
   if (a->p==NULL){
@@ -131,10 +133,10 @@ void box_add_ray(box_internal_t* intern,
     ap_scalar_t* scalar = coeff->val.scalar;
     sgn = ap_scalar_sgn(scalar);
     if (sgn!=0){
-      if (sgn>0 || gen->gentyp==AP_GEN_LINE){
+      if (sgn>0 || line){
 	bound_set_infty(a->p[dim]->sup,1);
       }
-      if (sgn<0 || gen->gentyp==AP_GEN_LINE){
+      if (sgn<0 || line){
 	bound_set_infty(a->p[dim]->inf,1);
       }
     }
-- 
2.43.0


From 9780bd3e3d9787d00107f56c002499115301c90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 15/46] fix: taylor1plus evaluates casts, remainders and powers
 instead of aborting

---
 taylor1plus/t1p_fun.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/taylor1plus/t1p_fun.c b/taylor1plus/t1p_fun.c
index d98970a..fbfa616 100644
--- a/taylor1plus/t1p_fun.c
+++ b/taylor1plus/t1p_fun.c
@@ -1084,9 +1084,28 @@ t1p_aff_t* t1p_aff_eval_node_binary (t1p_internal_t* pr, ap_texpr0_node_t* node,
     return res;
 }
 
+/* operations without affine arithmetic of their own (CAST, MOD, POW): an affine form of their interval evaluation */
+static t1p_aff_t* t1p_aff_eval_node_itv (t1p_internal_t* pr, ap_texpr0_node_t* node, t1p_t* env)
+{
+    t1p_aff_t* res = t1p_aff_alloc_init(pr);
+    ap_texpr0_t expr;
+    itv_t box;
+    itv_init(box);
+    expr.discr = AP_TEXPR_NODE;
+    expr.val.node = node;
+    itv_eval_ap_texpr0(pr->itv, box, &expr, env->box);
+    if (!itv_is_bottom(pr->itv, box) && itv_has_finite_bound(box)) t1p_aff_add_itv(pr, res, box, IN);
+    else itv_set(res->c, box);
+    itv_set(res->itv, box);
+    itv_clear(box);
+    return res;
+}
+
 t1p_aff_t* t1p_aff_eval_node( t1p_internal_t* pr, ap_texpr0_node_t* node, t1p_t* env)
 {
     arg_assert((node && env), abort(););
+    if (node->op == AP_TEXPR_CAST || node->op == AP_TEXPR_MOD || node->op == AP_TEXPR_POW)
+      return t1p_aff_eval_node_itv(pr, node, env);
     if (node->exprB) return t1p_aff_eval_node_binary(pr, node, env);
     else return t1p_aff_eval_node_unary(pr, node, env);
 }
-- 
2.43.0


From 9fafd87b2f75d7048be00587d431d9163dfef153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 16/46] fix: box policies keep the value for constraints they
 cannot use (disequalities, congruences)

---
 box/box_policy.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/box/box_policy.c b/box/box_policy.c
index 47db705..5ba2f94 100644
--- a/box/box_policy.c
+++ b/box/box_policy.c
@@ -464,10 +464,12 @@ void box_policy_meet_lincons_internal(box_internal_t* intern,
   bool exc;
   int cmp;
 
-  assert(cons->constyp == AP_CONS_EQ ||
-	 cons->constyp == AP_CONS_SUPEQ ||
-	 cons->constyp == AP_CONS_SUP);
-
+  if (cons->constyp != AP_CONS_EQ &&
+      cons->constyp != AP_CONS_SUPEQ &&
+      cons->constyp != AP_CONS_SUP){
+    /* no bound can be deduced: the value is kept, and so is its policy */
+    return;
+  }
   if (a->p==NULL){
     box_set_bottom(a);
   }
-- 
2.43.0


From 107bfcfe716af713a6f22502a3b9d879cf624568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 17/46] fix: fppol passes an MPFR rounding mode, not an fenv
 constant, when it converts coefficients

---
 fppol/fpp_extract.c |  2 +-
 fppol/fpp_user.c    | 22 +++++++++++-----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/fppol/fpp_extract.c b/fppol/fpp_extract.c
index 380a385..367bcdc 100755
--- a/fppol/fpp_extract.c
+++ b/fppol/fpp_extract.c
@@ -94,7 +94,7 @@ ap_interval_t* fpp_bound_linexpr(ap_manager_t* man,
 		 switch(coeff->discr){
 			case AP_COEFF_SCALAR:
 				pscalar = coeff->val.scalar;
-				ap_double_set_scalar(&val,pscalar,FE_UPWARD);
+				ap_double_set_scalar(&val,pscalar,GMP_RNDU);
 				*(objVector+dim)=val;
 				break;
 		   case AP_COEFF_INTERVAL:
diff --git a/fppol/fpp_user.c b/fppol/fpp_user.c
index 403f0fd..62f1fb0 100755
--- a/fppol/fpp_user.c
+++ b/fppol/fpp_user.c
@@ -75,17 +75,17 @@ numdbl_t* fpp_vector_of_lincons0(ap_lincons0_t p, unsigned dimension,unsigned in
       	    switch(coeff->discr){
               case AP_COEFF_SCALAR:
 				pscalar = coeff->val.scalar;
-                ap_double_set_scalar(&val,pscalar,FE_UPWARD);
+                ap_double_set_scalar(&val,pscalar,GMP_RNDU);
                 *q=val;
 				if(*q==0.0)  *(q+dimension+1)=0.0;
 				else         *(q+dimension+1)=-*q;
        	        break;
               case AP_COEFF_INTERVAL:
 				pscalar = coeff->val.interval->sup;
-                ap_double_set_scalar(&val,pscalar,FE_UPWARD);
+                ap_double_set_scalar(&val,pscalar,GMP_RNDU);
                 *q=val;
                 pscalar = coeff->val.interval->inf;
-                ap_double_set_scalar(&val,pscalar,FE_UPWARD);
+                ap_double_set_scalar(&val,pscalar,GMP_RNDU);
 				if(val==0.0)  *(q+dimension+1)=0.0;
 				else *(q+dimension+1)=-val;
                 break;
@@ -100,7 +100,7 @@ numdbl_t* fpp_vector_of_lincons0(ap_lincons0_t p, unsigned dimension,unsigned in
       	    switch(coeff->discr){
               case AP_COEFF_SCALAR:
             	pscalar = coeff->val.scalar;
-                ap_double_set_scalar(&val,pscalar,FE_UPWARD);
+                ap_double_set_scalar(&val,pscalar,GMP_RNDU);
                 *(q+dim+1)=val;
 				if(val==0.0){
 					*(q+dim+1)=0.0;
@@ -135,7 +135,7 @@ numdbl_t* fpp_vector_of_lincons0(ap_lincons0_t p, unsigned dimension,unsigned in
 					*n=0;
 					return NULL;
 				   }
-				   ap_double_set_scalar(&val,pscalar,FE_UPWARD); /* AP_SCALAR_DOUBLE or AP_SCALAR_MPQ*/
+				   ap_double_set_scalar(&val,pscalar,GMP_RNDU); /* AP_SCALAR_DOUBLE or AP_SCALAR_MPQ*/
 				   *q=trunc(val-1);
 				   break;
 				case AP_COEFF_INTERVAL:
@@ -145,7 +145,7 @@ numdbl_t* fpp_vector_of_lincons0(ap_lincons0_t p, unsigned dimension,unsigned in
 					*n=0;
 					return NULL;
 				   }
-				   ap_double_set_scalar(&val,pscalar,FE_UPWARD); /* AP_SCALAR_DOUBLE or AP_SCALAR_MPQ*/
+				   ap_double_set_scalar(&val,pscalar,GMP_RNDU); /* AP_SCALAR_DOUBLE or AP_SCALAR_MPQ*/
 				   *q=trunc(val-1);
 				   break;
 			}
@@ -158,7 +158,7 @@ numdbl_t* fpp_vector_of_lincons0(ap_lincons0_t p, unsigned dimension,unsigned in
 				switch(coeff->discr){
 				case AP_COEFF_SCALAR:
 				   pscalar = coeff->val.scalar;
-				   ap_double_set_scalar(&val,pscalar,FE_UPWARD); /* AP_SCALAR_DOUBLE or AP_SCALAR_MPQ*/
+				   ap_double_set_scalar(&val,pscalar,GMP_RNDU); /* AP_SCALAR_DOUBLE or AP_SCALAR_MPQ*/
 				   if(val==0.0)  *(q+dim+1)=0.0;
 				   else *(q+dim+1)=-val;
 				   break;
@@ -188,7 +188,7 @@ numdbl_t* fpp_vector_of_lincons0(ap_lincons0_t p, unsigned dimension,unsigned in
 				   *n=0;
 				   return NULL;
 				}
-                ap_double_set_scalar(&val,pscalar,FE_UPWARD); /* AP_SCALAR_DOUBLE or AP_SCALAR_MPQ*/
+                ap_double_set_scalar(&val,pscalar,GMP_RNDU); /* AP_SCALAR_DOUBLE or AP_SCALAR_MPQ*/
                 *q=val;
        	        break;
               case AP_COEFF_INTERVAL:
@@ -198,7 +198,7 @@ numdbl_t* fpp_vector_of_lincons0(ap_lincons0_t p, unsigned dimension,unsigned in
 				   *n=0;
 				   return NULL;
 				}
-                ap_double_set_scalar(&val,pscalar,FE_UPWARD); /* AP_SCALAR_DOUBLE or AP_SCALAR_MPQ*/
+                ap_double_set_scalar(&val,pscalar,GMP_RNDU); /* AP_SCALAR_DOUBLE or AP_SCALAR_MPQ*/
                 *q=val;
                 break;
             }
@@ -211,7 +211,7 @@ numdbl_t* fpp_vector_of_lincons0(ap_lincons0_t p, unsigned dimension,unsigned in
       	    switch(coeff->discr){
               case AP_COEFF_SCALAR:
 				pscalar = coeff->val.scalar;
-				ap_double_set_scalar(&val,pscalar,FE_UPWARD); /* AP_SCALAR_DOUBLE or AP_SCALAR_MPQ*/
+				ap_double_set_scalar(&val,pscalar,GMP_RNDU); /* AP_SCALAR_DOUBLE or AP_SCALAR_MPQ*/
 				if(val==0.0)  *(q+dim+1)=0.0;
 				else *(q+dim+1)=-val;
 				break;
@@ -250,7 +250,7 @@ void fpp_vector_of_linexp0(numdbl_t* q, ap_linexpr0_t* p)
       	 switch(coeff->discr){
             case AP_COEFF_SCALAR:
             	pscalar = coeff->val.scalar;
-                ap_double_set_scalar(&val,pscalar,FE_UPWARD);
+                ap_double_set_scalar(&val,pscalar,GMP_RNDU);
                 *(q+dim+1)=val;
        	        break;
            case AP_COEFF_INTERVAL:
-- 
2.43.0


From b4604dc94cc76f37f0b45ddf5b12e943b8f258cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 18/46] fix: MPFR numbers are serialised with their exponent,
 and read back rounding upwards

---
 num/numflt_mpfr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/num/numflt_mpfr.h b/num/numflt_mpfr.h
index 5ffc470..9e260f7 100644
--- a/num/numflt_mpfr.h
+++ b/num/numflt_mpfr.h
@@ -312,7 +312,7 @@ static inline size_t numflt_serialize(void* dst, numflt_t src)
   assert(((unsigned)count)==count);
   assert(((int)e)==e);
   num_dump_word32((char*)dst+1,(unsigned)count);
-  num_dump_word32((char*)dst+5,(unsigned)count);
+  num_dump_word32((char*)dst+5,(unsigned)e);
   return count+9;
 
 }
@@ -332,9 +332,9 @@ static inline size_t numflt_deserialize(numflt_t dst, const void* src)
     e = (int)num_undump_word32((const char*)src+5);
     mpz_init(z);
     mpz_import(z,count,1,1,1,0,(const char*)src+9);
+    if (*((const char*)src)==4) mpz_neg(z,z);
     mpfr_set_z(dst,z,GMP_RNDU);
     mpfr_mul_2si(dst,dst,e,GMP_RNDU);
-    if (*((const char*)src)==4) mpfr_neg(dst,dst,GMP_RNDU);
     mpz_clear(z);
     return count+9;
   default:
-- 
2.43.0


From bb20b3f01f265578c2fc6eecea935e979e4caf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 19/46] fix: ap_coeff_set_itv rounds the lower bound downwards
 when the conversion is inexact

---
 itv/itv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itv/itv.c b/itv/itv.c
index c5bdefc..8d6f1f0 100644
--- a/itv/itv.c
+++ b/itv/itv.c
@@ -756,8 +756,8 @@ bool ITVFUN(ap_coeff_set_itv)(itv_internal_t* intern,
       ap_coeff_reinit(a,AP_COEFF_INTERVAL,
 		      intern->ap_conversion_scalar->discr);
       ap_scalar_set(a->val.interval->sup, intern->ap_conversion_scalar);
-      bound_neg(intern->ap_conversion_bound, b->inf); /* we now it is finite */
-      ap_scalar_set_bound(a->val.interval->inf, intern->ap_conversion_bound);
+      ap_scalar_set_bound(a->val.interval->inf, b->inf);
+      ap_scalar_neg(a->val.interval->inf, a->val.interval->inf);
       return false;
     }
   }
-- 
2.43.0


From 655d0e738e07a524e9b8cf7a9a84842bd0e694e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 20/46] fix: ap_abstract0_hash reports an incompatible manager
 as a failure of hash, not of canonicalize

---
 apron/ap_abstract0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 6236207..34b9373 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -616,7 +616,7 @@ void ap_abstract0_canonicalize(ap_manager_t* man, ap_abstract0_t* a)
 }
 int ap_abstract0_hash(ap_manager_t* man, ap_abstract0_t* a)
 {
-  if (ap_abstract0_checkman1(AP_FUNID_CANONICALIZE,man,a)){
+  if (ap_abstract0_checkman1(AP_FUNID_HASH,man,a)){
     int (*ptr)(ap_manager_t*,void*) = man->funptr[AP_FUNID_HASH];
     return ptr(man,a->value);
   }
-- 
2.43.0


From edd0c827c63f92c9d236199dab50901ec623d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 21/46] fix: the sortedness test of dimension changes compares
 the second dimension with the first

---
 apron/ap_abstract0.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 34b9373..86de480 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -468,7 +468,7 @@ bool ap_abstract0_check_ap_dimchange_add(ap_funid_t funid, ap_manager_t* man,
   size = dimchange->intdim+dimchange->realdim;
   if (res && size>0){
     /* Check sortedness */
-    ap_dim_t dim = 0;
+    ap_dim_t dim = dimchange->dim[0];
     for (i=1; i<size; i++){
       if (dim>dimchange->dim[i]){
 	res = false;
@@ -503,7 +503,7 @@ bool ap_abstract0_check_ap_dimchange_remove(ap_funid_t funid, ap_manager_t* man,
   size = dimchange->intdim+dimchange->realdim;
   if (res && size>0){
     /* Check sortedness */
-    ap_dim_t dim = 0;
+    ap_dim_t dim = dimchange->dim[0];
     for (i=1; i<dimchange->intdim+dimchange->realdim; i++){
       if (dim>=dimchange->dim[i]){
 	res = false;
-- 
2.43.0


From c7a14f743dfa7643e6a8798deaa1a4e87c65ac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 22/46] fix: a sparse expression on dimension 0 does not fit an
 abstract value without dimensions

---
 apron/ap_abstract0.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 86de480..5292ae0 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -243,7 +243,7 @@ ap_dim_t ap_abstract0_check_linexpr_check(ap_dimension_t dimension,
   ap_dim_t dim;
 
   nbdims = dimension.intdim+dimension.realdim;
-  dim = 0;
+  dim = AP_DIM_MAX;
   switch (expr->discr){
   case AP_LINEXPR_DENSE:
     if (expr->size > nbdims){
@@ -264,7 +264,6 @@ ap_dim_t ap_abstract0_check_linexpr_check(ap_dimension_t dimension,
 	break;
       }
     }
-    if (!dim) dim = AP_DIM_MAX;
     break;
   default:
     abort();
-- 
2.43.0


From 2a977659df35215cff30cf7bed6e63b8b87612a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 23/46] fix: ap_abstract0_dimension does not call a manager's
 operation on a value of another library

---
 apron/ap_abstract0.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 5292ae0..cc2d0e9 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -717,9 +717,12 @@ ap_abstract0_t* ap_abstract0_of_box(ap_manager_t* man,
 /* ============================================================ */
 ap_dimension_t ap_abstract0_dimension(ap_manager_t* man, ap_abstract0_t* a)
 {
-  ap_abstract0_checkman1(AP_FUNID_DIMENSION,man,a);
-  ap_dimension_t (*ptr)(ap_manager_t*,void*) = man->funptr[AP_FUNID_DIMENSION];
-  return ptr(a->man,a->value);
+  if (ap_abstract0_checkman1(AP_FUNID_DIMENSION,man,a)){
+    ap_dimension_t (*ptr)(ap_manager_t*,void*) = man->funptr[AP_FUNID_DIMENSION];
+    return ptr(a->man,a->value);
+  }
+  else
+    return _ap_abstract0_dimension(a);
 }
 
 /* ============================================================ */
-- 
2.43.0


From ad2d623f069546d5b25a43b56c78afda3aa0efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 24/46] fix: native rationals are printed to strings with their
 denominator, within the buffer

---
 num/numrat_native.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/num/numrat_native.h b/num/numrat_native.h
index 7e564c0..61ac402 100644
--- a/num/numrat_native.h
+++ b/num/numrat_native.h
@@ -325,8 +325,8 @@ static inline int numrat_snprint(char* s, size_t size, numrat_t a)
     res = numint_snprint(s,size,a->n);
   else {
     res = numint_snprint(s,size,a->n);
-    res += snprintf(s+res,size-res,"/");
-    res += numint_snprint(s+res,size-res,a->n);
+    if ((size_t)res<size) res += snprintf(s+res,size-res,"/");
+    if ((size_t)res<size) res += numint_snprint(s+res,size-res,a->d);
   }
   return res;
 }
-- 
2.43.0


From 50b2241626e4c4224c56de1af1f5a68f404bc01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 25/46] fix: ap_abstract1_fprintdiff stops after reporting
 different environments

---
 apron/ap_abstract1.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index febb7e5..e4f523b 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -277,6 +277,7 @@ void ap_abstract1_fprintdiff(FILE* stream,
     ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,AP_FUNID_FPRINTDIFF,
 			       "the 2 abstract values are not defined on the same environment");
     fprintf(stream,"unknown diff\n");
+    return;
   }
   name_of_dim = ap_environment_name_of_dim_alloc(a1->env);
   ap_abstract0_fprintdiff(stream,man,a1->abstract0, a2->abstract0, name_of_dim->p);
-- 
2.43.0


From 902502366943c89d3acf58a5adde8764caa6e853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 26/46] fix: ap_abstract1_expand checks the new variables
 before expanding the value

---
 apron/ap_abstract1.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index e4f523b..06db4cb 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1121,9 +1121,6 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
     if (destructive) ap_abstract1_clear(man,a);
     return res;
   }
-  /* Doing the expansion at level 0 */
-  value = ap_abstract0_expand(man,destructive,a->abstract0,dim,size);
-
   /* Building the resulting environment and permutation to apply */
   nenv =
     (dim<a->env->intdim) ?
@@ -1136,6 +1133,9 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
     goto ap_abstract1_expand_exit;
   }
 
+  /* Doing the expansion at level 0 */
+  value = ap_abstract0_expand(man,destructive,a->abstract0,dim,size);
+
   /* Apply permutation and return */
   value = ap_abstract0_permute_dimensions(man,true,value,&perm);
   ap_dimperm_clear(&perm);
-- 
2.43.0


From b1948842fc922da38cbc5f748ce72592dfd1c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 27/46] fix: overloaded native methods of Mpz are bound to
 their own C functions

---
 japron/gmp/gmp_Mpz.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/japron/gmp/gmp_Mpz.c b/japron/gmp/gmp_Mpz.c
index fc1efdf..19f0d44 100644
--- a/japron/gmp/gmp_Mpz.c
+++ b/japron/gmp/gmp_Mpz.c
@@ -564,7 +564,7 @@ JNIEXPORT jint JNICALL Java_gmp_Mpz_cdivQR__Lgmp_Mpz_2Lgmp_Mpz_2I
  * Method:    cdivR
  * Signature: (I)I
  */
-JNIEXPORT jint JNICALL Java_gmp_Mpz_cdivR
+JNIEXPORT jint JNICALL Java_gmp_Mpz_cdivR__I
   (JNIEnv *env, jobject o1, jint i)
 {
   check_nonnull(o1,0);
@@ -699,7 +699,7 @@ JNIEXPORT jint JNICALL Java_gmp_Mpz_fdivQR__Lgmp_Mpz_2Lgmp_Mpz_2I
  * Method:    fdivR
  * Signature: (I)I
  */
-JNIEXPORT jint JNICALL Java_gmp_Mpz_fdivR
+JNIEXPORT jint JNICALL Java_gmp_Mpz_fdivR__I
   (JNIEnv *env, jobject o1, jint i)
 {
   check_nonnull(o1,0);
@@ -834,7 +834,7 @@ JNIEXPORT jint JNICALL Java_gmp_Mpz_tdivQR__Lgmp_Mpz_2Lgmp_Mpz_2I
  * Method:    tdivR
  * Signature: (I)I
  */
-JNIEXPORT jint JNICALL Java_gmp_Mpz_tdivR
+JNIEXPORT jint JNICALL Java_gmp_Mpz_tdivR__I
   (JNIEnv *env, jobject o1, jint i)
 {
   check_nonnull(o1,0);
@@ -1105,7 +1105,7 @@ JNIEXPORT void JNICALL Java_gmp_Mpz_root__Lgmp_Mpz_2Lgmp_Mpz_2I
  * Method:    sqrt
  * Signature: (Lgmp/Mpz;)V
  */
-JNIEXPORT void JNICALL Java_gmp_Mpz_sqrt
+JNIEXPORT void JNICALL Java_gmp_Mpz_sqrt__Lgmp_Mpz_2
   (JNIEnv *env, jobject o1, jobject o2)
 {
   check_nonnull(o1,);
-- 
2.43.0


From 9bb1ede82241a251f99763b8644aa185964409b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 28/46] fix: Java natives check every object they use for null

---
 japron/apron/apron_Environment.c | 1 +
 japron/apron/japron.c            | 3 ++-
 japron/gmp/gmp_Mpfr.c            | 1 +
 japron/gmp/gmp_Mpz.c             | 1 +
 4 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/japron/apron/apron_Environment.c b/japron/apron/apron_Environment.c
index ae626ed..2962cba 100644
--- a/japron/apron/apron_Environment.c
+++ b/japron/apron/apron_Environment.c
@@ -113,6 +113,7 @@ JNIEXPORT jobject JNICALL Java_apron_Environment_addPerm
   (JNIEnv *env, jobject o, jobjectArray ar1, jobjectArray ar2, jobjectArray pr)
 {
   check_nonnull(o,NULL);
+  check_nonnull(pr,NULL);
   jobject rr = (*env)->NewObject(env, japron_environment, japron_environment_init);
   if (!rr) return NULL;
   size_t nb1 = 0, nb2 = 0;
diff --git a/japron/apron/japron.c b/japron/apron/japron.c
index 6e2bd57..1772983 100644
--- a/japron/apron/japron.c
+++ b/japron/apron/japron.c
@@ -233,6 +233,7 @@ int japron_scalar_set(JNIEnv *env, ap_scalar_t* c, jobject o)
   }
   else if ((*env)->IsInstanceOf(env, o, japron_mpfrscalar)) {
     jobject r = (*env)->GetObjectField(env, o, japron_mpfrscalar_val);
+    check_nonnull(r,0);
     ap_scalar_set_mpfr(c, as_mpfr(r));
   }
   else if ((*env)->IsInstanceOf(env, o, japron_doublescalar))
@@ -290,7 +291,7 @@ jobject japron_scalar_get(JNIEnv *env, ap_scalar_t* c)
 /* Interval o -> ap_interval_t */
 int japron_interval_set(JNIEnv *env, ap_interval_t* c, jobject o)
 {
-  check_nonnull(o,1);
+  check_nonnull(o,0);
   jobject inf = (*env)->GetObjectField(env, o, japron_interval_inf);
   jobject sup = (*env)->GetObjectField(env, o, japron_interval_sup);
   if (!japron_scalar_set(env, c->inf, inf)) return 0;
diff --git a/japron/gmp/gmp_Mpfr.c b/japron/gmp/gmp_Mpfr.c
index d7ceabf..1bbfec0 100644
--- a/japron/gmp/gmp_Mpfr.c
+++ b/japron/gmp/gmp_Mpfr.c
@@ -2031,6 +2031,7 @@ JNIEXPORT jint JNICALL Java_gmp_Mpfr_rint_1floor
 JNIEXPORT jint JNICALL Java_gmp_Mpfr_rint_1round
   (JNIEnv *env, jobject o1, jobject o2, jint p)
 {
+  check_nonnull(o1,0);
   check_nonnull(o2,0);
   return mpfr_rint_round(as_mpfr(o1), as_mpfr(o2), p);
 }
diff --git a/japron/gmp/gmp_Mpz.c b/japron/gmp/gmp_Mpz.c
index 19f0d44..8bba3b7 100644
--- a/japron/gmp/gmp_Mpz.c
+++ b/japron/gmp/gmp_Mpz.c
@@ -1039,6 +1039,7 @@ JNIEXPORT void JNICALL Java_gmp_Mpz_pow__Lgmp_Mpz_2ILgmp_Mpz_2
 {
   check_nonnull(o1,);
   check_nonnull(o2,);
+  check_nonnull(o3,);
   check_positive(i,);
   mpz_powm_ui(as_mpz(o1),as_mpz(o2),i,as_mpz(o3));
 }
-- 
2.43.0


From cebfb89fa456a564fa8e65e41614eaed28ec9981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 29/46] fix: Java natives reject negative integers where the C
 library takes unsigned ones

---
 japron/apron/apron_Linexpr0.c     | 4 +++-
 japron/apron/apron_Manager.c      | 2 ++
 japron/apron/apron_Texpr0Intern.c | 2 ++
 japron/gmp/gmp_Mpfr.c             | 1 +
 japron/gmp/gmp_Mpq.c              | 1 +
 japron/gmp/gmp_RandState.c        | 3 +++
 6 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/japron/apron/apron_Linexpr0.c b/japron/apron/apron_Linexpr0.c
index d6b1ee6..cc2b1a4 100644
--- a/japron/apron/apron_Linexpr0.c
+++ b/japron/apron/apron_Linexpr0.c
@@ -236,6 +236,7 @@ JNIEXPORT jboolean JNICALL Java_apron_Linexpr0_isInteger
   (JNIEnv *env, jobject o, jint i)
 {
   check_nonnull(o,0);
+  check_positive(i,0);
  return ap_linexpr0_is_integer(as_linexpr0(o), i);
 }
 
@@ -248,7 +249,8 @@ JNIEXPORT jboolean JNICALL Java_apron_Linexpr0_isReal
   (JNIEnv *env, jobject o, jint i)
 {
   check_nonnull(o,0);
-  return ap_linexpr0_is_real(as_linexpr0(o), i);
+   check_positive(i,0);
+ return ap_linexpr0_is_real(as_linexpr0(o), i);
 }
 
 /*
diff --git a/japron/apron/apron_Manager.c b/japron/apron/apron_Manager.c
index 5ab6fb4..394baee 100644
--- a/japron/apron/apron_Manager.c
+++ b/japron/apron/apron_Manager.c
@@ -151,6 +151,7 @@ JNIEXPORT void JNICALL Java_apron_Manager_setTimeout
   check_nonnull(o,);
   if (id<AP_FUNID_COPY || id>=AP_FUNID_SIZE)
     { illegal_argument("unknown operation identifier"); return; }
+  check_positive(v,);
   as_manager(o)->option.funopt[id].timeout = v;
 }
 
@@ -165,6 +166,7 @@ JNIEXPORT void JNICALL Java_apron_Manager_setMaxObjectSize
   check_nonnull(o,);
   if (id<AP_FUNID_COPY || id>=AP_FUNID_SIZE)
     { illegal_argument("unknown operation identifier"); return; }
+  check_positive(v,);
   as_manager(o)->option.funopt[id].max_object_size = v;
 }
 
diff --git a/japron/apron/apron_Texpr0Intern.c b/japron/apron/apron_Texpr0Intern.c
index 2e1ee7e..fca236f 100644
--- a/japron/apron/apron_Texpr0Intern.c
+++ b/japron/apron/apron_Texpr0Intern.c
@@ -135,6 +135,7 @@ JNIEXPORT jboolean JNICALL Java_apron_Texpr0Intern_hasDim
   (JNIEnv * env, jobject o1, jint d)
 {
   check_nonnull(o1,0);
+  check_positive(d,0);
   return ap_texpr0_has_dim(as_texpr0(o1), d);
 }
 
@@ -229,6 +230,7 @@ JNIEXPORT void JNICALL Java_apron_Texpr0Intern_substitute
 {
   check_nonnull(o1,);
   check_nonnull(o2,);
+  check_positive(i,);
   ap_texpr0_substitute_with(as_texpr0(o1), i, as_texpr0(o2));
 }
 
diff --git a/japron/gmp/gmp_Mpfr.c b/japron/gmp/gmp_Mpfr.c
index 1bbfec0..61471df 100644
--- a/japron/gmp/gmp_Mpfr.c
+++ b/japron/gmp/gmp_Mpfr.c
@@ -423,6 +423,7 @@ JNIEXPORT jstring JNICALL Java_gmp_Mpfr_toString
   else {
     /* formatting based on mpfr_get_str */
     mp_exp_t exp;
+    check_positive(n,NULL);
     char* res = mpfr_get_str(NULL, &exp, base, n, as_mpfr(o), p);
     size_t len = strlen(res) + 16;
     char* res2 = malloc(len+1);
diff --git a/japron/gmp/gmp_Mpq.c b/japron/gmp/gmp_Mpq.c
index fd9d124..8fc88a4 100644
--- a/japron/gmp/gmp_Mpq.c
+++ b/japron/gmp/gmp_Mpq.c
@@ -454,6 +454,7 @@ JNIEXPORT jint JNICALL Java_gmp_Mpq_cmp__II
   (JNIEnv *env, jobject o1, jint i, jint j)
 {
   check_nonnull(o1,0);
+  check_positive(j,0);
   mpq_ptr x = as_mpq(o1);
   return mpq_cmp_si(x, i, j);
 }
diff --git a/japron/gmp/gmp_RandState.c b/japron/gmp/gmp_RandState.c
index a5e2a03..f57a288 100644
--- a/japron/gmp/gmp_RandState.c
+++ b/japron/gmp/gmp_RandState.c
@@ -47,6 +47,8 @@ JNIEXPORT void JNICALL Java_gmp_RandState_init_1lc_12exp
 {
   check_nonnull(o1,);
   check_nonnull(o2,);
+  check_positive(i,);
+  check_positive(j,);
   gmp_randstate_ptr ptr = jgmp_make_randstate(env, o1);
   if (ptr) gmp_randinit_lc_2exp(ptr, as_mpz(o2), i, j);
 }
@@ -60,6 +62,7 @@ JNIEXPORT void JNICALL Java_gmp_RandState_init_1lc_12exp_1size
   (JNIEnv *env, jobject o1, jint i)
 {
   check_nonnull(o1,);
+  check_positive(i,);
   gmp_randstate_ptr ptr = jgmp_make_randstate(env, o1);
   if (ptr) gmp_randinit_lc_2exp_size(ptr, i);
 }
-- 
2.43.0


From a15ce6bd6d03ac1a629e0b85f189ca5c01434823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 30/46] fix: level-1 destructive operations release the surplus
 environment reference

---
 apron/ap_abstract1.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 06db4cb..fb60c15 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -59,19 +59,9 @@ ap_abstract1_t ap_abstract1_consres2(bool destructive, ap_abstract1_t* a,
 				     ap_environment_t* env)
 {
   ap_abstract1_t res;
-  if (destructive){
-    if (value==a->abstract0 && env==a->env)
-      res = *a;
-    else {
-      res.abstract0 = value;
-      res.env = env;
-      ap_environment_free(a->env);
-    }
-  }
-  else {
-    res.abstract0 = value;
-    res.env = env;
-  }
+  res.abstract0 = value;
+  res.env = env;
+  if (destructive) ap_environment_free(a->env);
   return res;
 }
 
-- 
2.43.0


From 099a441c8170ce819c29999ef9195d9661acf932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 31/46] fix: temporary environments are released in level-1
 fold and constructors

---
 apron/ap_abstract1.c | 13 +++++++++++--
 apron/ap_policy.c    |  7 ++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index fb60c15..2844aee 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -310,7 +310,10 @@ ap_abstract1_t ap_abstract1_deserialize_raw(ap_manager_t* man, void* ptr, size_t
   (void)ptr;
   (void)size;
   ap_manager_raise_exception(man,AP_EXC_NOT_IMPLEMENTED,AP_FUNID_DESERIALIZE_RAW,"");
-  return ap_abstract1_top(man,ap_environment_alloc_empty());
+  ap_environment_t* env = ap_environment_alloc_empty();
+  ap_abstract1_t res = ap_abstract1_top(man,env);
+  ap_environment_free(env);
+  return res;
 }
 
 
@@ -670,8 +673,13 @@ ap_abstract1_t ap_abstract1_meetjoin_array(ap_funid_t funid, ap_manager_t* man,
     res.env = ap_environment_copy(tab[0].env);
     free(ntab);
   }
+  else if (size==0) {
+    ap_environment_t* env = ap_environment_alloc_empty();
+    res = ap_abstract1_top(man,env);
+    ap_environment_free(env);
+  }
   else {
-    res = ap_abstract1_top(man, size==0 ? ap_environment_alloc_empty() : tab[0].env);
+    res = ap_abstract1_top(man,tab[0].env);
   }
   return res;
 }
@@ -1185,6 +1193,7 @@ ap_abstract1_t ap_abstract1_fold(ap_manager_t* man,
     if (tdim[i]==AP_DIM_MAX){
       ap_abstract1_raise_invalid_var(man,AP_FUNID_FOLD,tvar[i]);
       free(tdim);
+      ap_environment_free(nenv);
       goto ap_abstract1_fold_exit;
     }
   }
diff --git a/apron/ap_policy.c b/apron/ap_policy.c
index 518c970..4768920 100644
--- a/apron/ap_policy.c
+++ b/apron/ap_policy.c
@@ -570,8 +570,13 @@ ap_abstract1_policy_meet_array_apply(ap_policy_manager_t* pman, ap_policy_t* pol
     res.env = ap_environment_copy(tab[0].env);
     free(ntab);
   }
+  else if (size==0) {
+    ap_environment_t* env = ap_environment_alloc_empty();
+    res = ap_abstract1_top(pman->man,env);
+    ap_environment_free(env);
+  }
   else {
-    res = ap_abstract1_top(pman->man, size==0 ? ap_environment_alloc_empty() : tab[0].env);
+    res = ap_abstract1_top(pman->man,tab[0].env);
   }
   return res;
 }
-- 
2.43.0


From b303e6d777b1f600d03cfb193490e9756d93e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 32/46] fix: ap_environment_lce_array keeps its argument and
 returns a counted reference

---
 apron/ap_environment.c | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index d679c0a..18cb693 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -888,13 +888,6 @@ ap_environment_t* ap_environment_lce(ap_environment_t* env1,
   the array (*ptdimchange)[0] with malloc.
 
 */
-static int env_cmp(const void* a, const void* b)
-{
-  ap_environment_t* pa = *((ap_environment_t*const*)a);
-  ap_environment_t* pb = *((ap_environment_t*const*)b);
-  return (pa>pb ? 1 : (pa==pb ? 0 : -1));
-}
-
 ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
 					   size_t size,
 					   ap_dimchange_t*** ptdimchange)
@@ -909,29 +902,24 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
 
   assert(size>=1);
 
-  qsort(tenv,size,sizeof(ap_environment_t*),env_cmp);
-  /* remove doublons */
-  for(i=0;i<size-1;i++){
-    if (tenv[i]==tenv[i+1]){
-      if (i<size-2){
-	memmove(&tenv[i+1],&tenv[i+2],(size-i-2)*sizeof(ap_environment_t*));
-      }
-      size--;
-    }
-  }
   if (size==1){
-    *ptdimchange = malloc(sizeof(ap_dim_t*));
-    (*ptdimchange)[0] = NULL;
-    return tenv[0];
+    *ptdimchange = NULL;
+    return ap_environment_copy(tenv[0]);
   }
   if (size==2){
     if (ap_environment_is_eq(tenv[0],tenv[1])){
       *ptdimchange = NULL;
-      return tenv[0];
+      return ap_environment_copy(tenv[0]);
     }
     else {
+      ap_environment_t* env;
       *ptdimchange = malloc(2*sizeof(ap_dimchange_t*));
-      return ap_environment_lce(tenv[0],tenv[1],&(*ptdimchange)[0],&(*ptdimchange)[1]);
+      env = ap_environment_lce(tenv[0],tenv[1],&(*ptdimchange)[0],&(*ptdimchange)[1]);
+      if (env==NULL){
+	free(*ptdimchange);
+	*ptdimchange = NULL;
+      }
+      return env;
     }
   }
 
@@ -978,7 +966,7 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
     }
   }
   free(tdenv);
-  if (j>0){
+  if (j>=0){
     env_clear(&denv.envint);
     env_clear(&denv.envreal);
     if (!change){
@@ -991,7 +979,7 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
     ap_environment_t* env = environment_of_denv(&denv);
     if (ap_environment_check(env)){
       for (i=0;i<size;i++){
-	if ((*ptdimchange)[i]) free((*ptdimchange)[i]);
+	if ((*ptdimchange)[i]) ap_dimchange_free((*ptdimchange)[i]);
       }
       free(*ptdimchange);
       *ptdimchange=NULL;
-- 
2.43.0


From ee1a01ffde5200f117ab1bcf2d41ef082800d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 33/46] fix: ap_intlinearize_texpr0_intlinear frees its
 workspace after the last use

---
 apron/ap_linearize_aux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apron/ap_linearize_aux.c b/apron/ap_linearize_aux.c
index 0e7e2e7..288c28e 100644
--- a/apron/ap_linearize_aux.c
+++ b/apron/ap_linearize_aux.c
@@ -300,13 +300,14 @@ ITVFUN(ap_intlinearize_texpr0_intlinear)(ap_manager_t* man,
   intern = itv_internal_alloc();
   itv_linexpr_init(&linexpr,0);
   exc = itv_intlinearize_ap_texpr0_intlinear(intern,&linexpr,expr);
-  itv_internal_free(intern);
   if (exc){
     itv_linexpr_clear(&linexpr);
+    itv_internal_free(intern);
     return NULL;
   }
   ap_linexpr0_set_itv_linexpr(intern,&res,&linexpr);
   itv_linexpr_clear(&linexpr);
+  itv_internal_free(intern);
   return res;
 }
 
-- 
2.43.0


From 6aae55402b2beee8d18be0ef9feb1afb02d4ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 34/46] fix: itv_intlinearize_ap_texpr0_intlinear clears its
 interval on non-linear products

---
 itv/itv_linearize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 5864539..d9ca31d 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -946,6 +946,7 @@ ap_texpr0_node_intlinearize_linear(itv_internal_t* intern,
     }
     else {
       exc = true;
+      itv_clear(i1);
       break;
     }
     if (n->op==AP_TEXPR_DIV){
-- 
2.43.0


From d739f118f83a7706d81ebaae00960f5097af1169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 35/46] fix: vector_set_linexpr_bound and pkeq_of_box clear
 their local numbers

---
 newpolka/pk_user.c | 1 +
 newpolka/pkeq.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/newpolka/pk_user.c b/newpolka/pk_user.c
index f7a2198..455aee6 100644
--- a/newpolka/pk_user.c
+++ b/newpolka/pk_user.c
@@ -126,6 +126,7 @@ bool vector_set_linexpr_bound(pk_internal_t* pk,
   else {
     numint_add(vec[polka_cst],vec[polka_cst],cst);
   }
+  numint_clear(cst);
   numint_set_int(vec[0], mode ? 1 : 0);
   vector_normalize(pk,vec,size);
   if (integer) vector_normalize_constraint_int(pk,vec,intdim,realdim);
diff --git a/newpolka/pkeq.c b/newpolka/pkeq.c
index 03addd5..606a782 100644
--- a/newpolka/pkeq.c
+++ b/newpolka/pkeq.c
@@ -182,6 +182,7 @@ pkeq_t* pkeq_of_box(ap_manager_t* man,
       if (!ok){
 	pk_matrix_free(po->C);
 	po->C = NULL;
+	itv_clear(itv);
 	return po;
       }
       row++;
-- 
2.43.0


From 4c340d721c828f126af4737e59984833ccdc49ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 36/46] fix: avo closure functions clear their local bounds on
 every path

---
 avoct/avo_closure.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/avoct/avo_closure.c b/avoct/avo_closure.c
index b8ec372..1709afa 100755
--- a/avoct/avo_closure.c
+++ b/avoct/avo_closure.c
@@ -171,17 +171,20 @@ void tighten_nsc_IJviaK_fixedSignK(bound_t* m , bound_t* nsc, size_t dim, size_t
    bound_badd(s2,s1);
    bound_bmin_nsc(m+avo_matpos2(ii,jj),nsc+avo_matpos2(ii,jj),s2,nsc_temp);
 
-   if(ii < 2 * dim && jj< 2 * dim) return;
-
-   /* i -> 2k -> j, i.e.,  Vi' -> Vk -> Vj' */
-   bound_add(temp,m[avo_matpos2(ii,2*k)],m[avo_matpos2(2*k,jj)]);
-   bound_min(nsc_temp,nsc[avo_matpos2(ii,2*k)],nsc[avo_matpos2(2*k,jj)]);
-   bound_bmin_nsc(m+avo_matpos2(ii,jj),nsc+avo_matpos2(ii,jj),temp,nsc_temp);
-
-   /* i -> 2k+1 -> j, i.e.,  Vi' -> -Vk -> Vj' */
-   bound_add(temp,m[avo_matpos2(ii,(2*k)^1)],m[avo_matpos2((2*k)^1,jj)]);
-   bound_min(nsc_temp,nsc[avo_matpos2(ii,(2*k)^1)],nsc[avo_matpos2((2*k)^1,jj)]);
-   bound_bmin_nsc(m+avo_matpos2(ii,jj),nsc+avo_matpos2(ii,jj),temp,nsc_temp);
+   if(ii >= 2 * dim || jj >= 2 * dim)
+   {
+     /* i -> 2k -> j, i.e.,  Vi' -> Vk -> Vj' */
+     bound_add(temp,m[avo_matpos2(ii,2*k)],m[avo_matpos2(2*k,jj)]);
+     bound_min(nsc_temp,nsc[avo_matpos2(ii,2*k)],nsc[avo_matpos2(2*k,jj)]);
+     bound_bmin_nsc(m+avo_matpos2(ii,jj),nsc+avo_matpos2(ii,jj),temp,nsc_temp);
+
+     /* i -> 2k+1 -> j, i.e.,  Vi' -> -Vk -> Vj' */
+     bound_add(temp,m[avo_matpos2(ii,(2*k)^1)],m[avo_matpos2((2*k)^1,jj)]);
+     bound_min(nsc_temp,nsc[avo_matpos2(ii,(2*k)^1)],nsc[avo_matpos2((2*k)^1,jj)]);
+     bound_bmin_nsc(m+avo_matpos2(ii,jj),nsc+avo_matpos2(ii,jj),temp,nsc_temp);
+   }
+   bound_clear(temp); bound_clear(nsc_temp);
+   bound_clear(s1);   bound_clear(s2);
 }
 
 /* Tighten M_{ii,jj} (ii and jj range in [0,4dim]
@@ -690,7 +693,11 @@ bool avo_hmat_close_weak_1sign(bound_t* m, bound_t* nsc, size_t dim)
 
 	for (i=0;i<4*dim;i++) {
 	    bound_t *c = m+avo_matpos2(i,i);
-	    if (bound_sgn(*c)<0) return true;
+	    if (bound_sgn(*c)<0) {
+	      bound_clear(temp); bound_clear(pos); bound_clear(neg);
+	      bound_clear(nsc_temp); bound_clear(nsc_pos); bound_clear(nsc_neg);
+	      return true;
+	    }
 	    bound_set_int(*c,0);
 	}
 
-- 
2.43.0


From a01bdcca2073b533e1f0087d0f9d991a5632c99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 37/46] fix: octagon operations release their copies when they
 reject an argument

---
 avoct/avo_nary.c      |  1 +
 avoct/avo_resize.c    |  3 ++-
 avoct/avo_transfer.c  | 18 +++++++++---------
 octagons/oct_nary.c   |  1 +
 octagons/oct_resize.c |  3 ++-
 5 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/avoct/avo_nary.c b/avoct/avo_nary.c
index 77db75c..6dbe05d 100755
--- a/avoct/avo_nary.c
+++ b/avoct/avo_nary.c
@@ -144,6 +144,7 @@ avo_t* avo_join_array(ap_manager_t* man, avo_t** tab, size_t size)
   r = avo_alloc_internal(pr,tab[0]->dim,tab[0]->intdim);
   for (k=0;k<size;k++) {
     arg_assert(tab[k]->dim==r->dim && tab[k]->intdim==r->intdim,
+	       if (m) { avo_hmat_free(pr,m,r->dim); avo_hmat_free(pr,nsc,r->dim); }
 	       avo_free_internal(pr,r);return NULL;);
     if (algo>=0) avo_cache_closure(pr,tab[k]);
     /* skip definitively empty */
diff --git a/avoct/avo_resize.c b/avoct/avo_resize.c
index a150416..4ca0855 100755
--- a/avoct/avo_resize.c
+++ b/avoct/avo_resize.c
@@ -39,10 +39,11 @@ avo_t* avo_forget_array(ap_manager_t* man,
     bound_t *m1= a->nsc;
     size_t i,k,dim;
     dim = a->dim;
+    for (i=0;i<size;i++)
+      arg_assert(tdim[i]<a->dim,return NULL;);
     if (!destructive) m = avo_hmat_copy(pr,m,a->dim);
     for (i=0;i<size;i++) {
       ap_dim_t d2 = 2*tdim[i];
-      arg_assert(tdim[i]<a->dim,return NULL;);
       /* binary constraints on tdim[i] */
       for (k=0;k<d2;k++) {
 		bound_set_infty(m[avo_matpos2(d2,k)],1);
diff --git a/avoct/avo_transfer.c b/avoct/avo_transfer.c
index e3d5ada..8a75e45 100755
--- a/avoct/avo_transfer.c
+++ b/avoct/avo_transfer.c
@@ -1161,18 +1161,18 @@ avo_t* avo_assign_linexpr_array(ap_manager_t* man,
   int inexact = 0;
   bool respect_closure = false;
 
-  if (!destructive)	  a1 = avo_copy_internal(pr,a);
-  else 	  a1 = a;
-
   /* checks */
   arg_assert(size>0,return NULL;);
-  for (i=0;i<a1->dim;i++) d[i] = 0;
+  for (i=0;i<a->dim;i++) d[i] = 0;
   for (i=0;i<size;i++) {
-    arg_assert(tdim[i]<a1->dim,return NULL;);
+    arg_assert(tdim[i]<a->dim,return NULL;);
     arg_assert(!d[tdim[i]],return NULL;); /* tdim has duplicate */
     d[tdim[i]] = 1;
   }
 
+  if (!destructive)	  a1 = avo_copy_internal(pr,a);
+  else 	  a1 = a;
+
   if (dest && !dest->closed && !dest->m)
     /* definitively empty due to dest*/
     return avo_set_mat_nsc(pr,a1,NULL,NULL,NULL,true);
@@ -1267,18 +1267,18 @@ avo_t* avo_substitute_linexpr_array(ap_manager_t* man,
   int inexact = 0;
   bool respect_closure = false; /* TODO */
 
-  if (!destructive)	  a1 = avo_copy_internal(pr,a);
-  else 	  a1 = a;
-
   /* checks */
   arg_assert(size>0,return NULL;);
-  for (i=0;i<a1->dim;i++) d[i] = 0;
+  for (i=0;i<a->dim;i++) d[i] = 0;
   for (i=0;i<size;i++) {
     arg_assert(tdim[i]<a->dim,return NULL;);
     arg_assert(!d[tdim[i]],return NULL;); /* tdim has duplicate */
     d[tdim[i]] = 1;
   }
 
+  if (!destructive)	  a1 = avo_copy_internal(pr,a);
+  else 	  a1 = a;
+
   m2 = dest ? (dest->closed ? dest->closed : dest->m) : NULL;
   if (dest && !m2)
     /* definitively empty due to dest*/
diff --git a/octagons/oct_nary.c b/octagons/oct_nary.c
index 80ade1a..df09c36 100644
--- a/octagons/oct_nary.c
+++ b/octagons/oct_nary.c
@@ -123,6 +123,7 @@ oct_t* oct_join_array(ap_manager_t* man, oct_t** tab, size_t size)
   r = oct_alloc_internal(pr,tab[0]->dim,tab[0]->intdim);
   for (k=0;k<size;k++) {
     arg_assert(tab[k]->dim==r->dim && tab[k]->intdim==r->intdim,
+	       if (m) hmat_free(pr,m,r->dim);
 	       oct_free_internal(pr,r);return NULL;);
     if (algo>=0) oct_cache_closure(pr,tab[k]);
     /* skip definitely empty */
diff --git a/octagons/oct_resize.c b/octagons/oct_resize.c
index e4fbd79..e3ff4c0 100644
--- a/octagons/oct_resize.c
+++ b/octagons/oct_resize.c
@@ -38,10 +38,11 @@ oct_t* oct_forget_array(ap_manager_t* man,
   else {
     bound_t* m = a->closed ? a->closed : a->m;
     size_t i,k;
+    for (i=0;i<size;i++)
+      arg_assert(tdim[i]<a->dim,return NULL;);
     if (!destructive) m = hmat_copy(pr,m,a->dim);
     for (i=0;i<size;i++) {
       ap_dim_t d2 = 2*tdim[i];
-      arg_assert(tdim[i]<a->dim,return NULL;);
       /* binary constraints on tdim[i] */
       for (k=0;k<d2;k++) {
 	bound_set_infty(m[matpos(d2,k)],1);
-- 
2.43.0


From d62caaf7a4a37da36ce702664cd1f781ef8adf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 38/46] fix: ap_disjunction_meet releases empty disjuncts and
 returns bottom without any

---
 apron/ap_disjunction.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/apron/ap_disjunction.c b/apron/ap_disjunction.c
index ee07443..1606e03 100644
--- a/apron/ap_disjunction.c
+++ b/apron/ap_disjunction.c
@@ -849,6 +849,9 @@ ap_disjunction_t* ap_disjunction_meet(ap_manager_t* manager, bool destructive,
   ap_manager_t* man = intern->manager;
   void* (*meet)(ap_manager_t*, bool, void*, void*) = man->funptr[AP_FUNID_MEET];
   bool (*is_bottom)(ap_manager_t*, void*) = man->funptr[AP_FUNID_IS_BOTTOM];
+  void (*man_free)(ap_manager_t*, void*) = man->funptr[AP_FUNID_FREE];
+  ap_dimension_t (*dimension)(ap_manager_t*, void*) = man->funptr[AP_FUNID_DIMENSION];
+  void* (*bottom)(ap_manager_t*, size_t, size_t) = man->funptr[AP_FUNID_BOTTOM];
 
   ap_disjunction_elim_redundant(intern, a1);
   ap_disjunction_elim_redundant(intern, a2);
@@ -863,12 +866,14 @@ ap_disjunction_t* ap_disjunction_meet(ap_manager_t* manager, bool destructive,
 	res->p[k] = res1;
 	k++;
       }
+      else
+	man_free(man,res1);
     }
   }
   if (k==0){
     assert(res->size>=1);
-    ap_dimension_t dim = ap_abstract0_dimension(man,a1->p[0]);
-    res->p[0] = ap_abstract0_top(man,dim.intdim,dim.realdim);
+    ap_dimension_t dim = dimension(man,a1->p[0]);
+    res->p[0] = bottom(man,dim.intdim,dim.realdim);
     res->size = 1;
   }
   else {
-- 
2.43.0


From 26084fc8fdc6417e358b6ab3f9745a452a372e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 39/46] fix: Java natives release what they built when they
 fail

---
 japron/apron/apron_Abstract0.c | 2 +-
 japron/apron/japron.c          | 3 ++-
 japron/gmp/gmp_Mpfr.c          | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/japron/apron/apron_Abstract0.c b/japron/apron/apron_Abstract0.c
index 032b2b8..c9512d9 100644
--- a/japron/apron/apron_Abstract0.c
+++ b/japron/apron/apron_Abstract0.c
@@ -1350,6 +1350,6 @@ JNIEXPORT jobject JNICALL Java_apron_Abstract0_deserialize
   jbyte* buf = (*env)->GetByteArrayElements(env, ar, 0);
   ap_abstract0_t* r = ap_abstract0_deserialize_raw(man, buf, &nb);  
   (*env)->ReleaseByteArrayElements(env, ar, buf, 0);
-  check_exc( { if (r) ap_abstract0_free(man, r); } );
+  check_exc( { if (r) ap_abstract0_free(man, r); return NULL; } );
   return japron_abstract0_get(env, man, r);
 }
diff --git a/japron/apron/japron.c b/japron/apron/japron.c
index 1772983..6c9f406 100644
--- a/japron/apron/japron.c
+++ b/japron/apron/japron.c
@@ -961,7 +961,8 @@ void** japron_object_array_alloc_set(JNIEnv *env, jobjectArray ar, size_t *pnb)
     jobject o = (*env)->GetObjectArrayElement(env, ar, i);
     if(!o) {
       null_pointer_exception("element of array is null");
-
+      for(size_t j = 0; j < i; j++) (*env)->DeleteGlobalRef(env, r[j]);
+      free(r);
       return NULL;
     }
 
diff --git a/japron/gmp/gmp_Mpfr.c b/japron/gmp/gmp_Mpfr.c
index 61471df..cabb7b3 100644
--- a/japron/gmp/gmp_Mpfr.c
+++ b/japron/gmp/gmp_Mpfr.c
@@ -1925,7 +1925,7 @@ JNIEXPORT jint JNICALL Java_gmp_Mpfr_sum
   if (!a) { out_of_memory("failed to alloc a mpfr_ptr array"); return 0; }
   for (i=0;i<nb;i++) {
     jobject b = (*env)->GetObjectArrayElement(env, tab, i);
-    check_nonnull(b,0);
+    if (!b) { free(a); null_pointer_exception("argument is null"); return 0; }
     a[i] = as_mpfr(b);
   }
   int r = mpfr_sum(as_mpfr(o1), a, nb, p);
-- 
2.43.0


From fd36609da6f436c79e4189bb21e897480525159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 40/46] fix: avo_join_array checks all its arguments before it
 copies them

---
 avoct/avo_nary.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/avoct/avo_nary.c b/avoct/avo_nary.c
index 6dbe05d..da0865c 100755
--- a/avoct/avo_nary.c
+++ b/avoct/avo_nary.c
@@ -142,10 +142,10 @@ avo_t* avo_join_array(ap_manager_t* man, avo_t** tab, size_t size)
   size_t i,k;
   arg_assert(size>0,return NULL;);
   r = avo_alloc_internal(pr,tab[0]->dim,tab[0]->intdim);
-  for (k=0;k<size;k++) {
+  for (k=0;k<size;k++)
     arg_assert(tab[k]->dim==r->dim && tab[k]->intdim==r->intdim,
-	       if (m) { avo_hmat_free(pr,m,r->dim); avo_hmat_free(pr,nsc,r->dim); }
 	       avo_free_internal(pr,r);return NULL;);
+  for (k=0;k<size;k++) {
     if (algo>=0) avo_cache_closure(pr,tab[k]);
     /* skip definitively empty */
     if (!tab[k]->m && !tab[k]->closed) continue;
-- 
2.43.0


From 0e17f7b65a2e72d6932fd72c4565ca0b4d3581c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:50 +0000
Subject: [PATCH 41/46] fix: avo_meet_array keeps the strictness matrix

The result had no strictness matrix, so any later operation on it
dereferenced a null pointer; strict bounds were also lost.
---
 avoct/avo_nary.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/avoct/avo_nary.c b/avoct/avo_nary.c
index da0865c..6eef27d 100755
--- a/avoct/avo_nary.c
+++ b/avoct/avo_nary.c
@@ -119,13 +119,15 @@ avo_t* avo_meet_array(ap_manager_t* man, avo_t** tab, size_t size)
     if (!tab[k]->m && !tab[k]->closed) return r;
   /* all elements are non-empty */
   r->m = avo_hmat_copy(pr,tab[0]->closed ? tab[0]->closed : tab[0]->m,r->dim);
+  r->nsc = avo_hmat_copy(pr,tab[0]->nsc,r->dim);
   for (k=1;k<size;k++) {
     bound_t* x = tab[k]->closed ? tab[k]->closed : tab[k]->m;
     arg_assert(tab[k]->dim==r->dim && tab[k]->intdim==r->intdim,
 	       avo_free_internal(pr,r);return NULL;);
     for (i=0;i<avo_matsize(r->dim);i++)
-      bound_bmin(r->m[i],x[i]);
+      bound_bmin_nsc(r->m+i,r->nsc+i,x[i],tab[k]->nsc[i]);
   }
+  avo_hmat_s_step(r->m,r->nsc,r->dim);
   return r;
 }
 
-- 
2.43.0


From 9ec6523452c72baa4c0ff053dd82d0a401de3dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:50 +0000
Subject: [PATCH 42/46] fix: avo_is_leq and avo_is_eq compare every bound

On |x| rows the tests that were to skip redundant bounds looked at the
wrong cells, and avo_is_eq stopped before these rows: [-1,1] was
included in, and equal to, {-1,1}.
---
 avoct/avo_predicate.c | 27 ++-------------------------
 1 file changed, 2 insertions(+), 25 deletions(-)

diff --git a/avoct/avo_predicate.c b/avoct/avo_predicate.c
index 3355367..a041795 100755
--- a/avoct/avo_predicate.c
+++ b/avoct/avo_predicate.c
@@ -84,21 +84,9 @@ bool avo_is_leq(ap_manager_t* man, avo_t* a1, avo_t* a2)
     bound_t *y = a2->closed ? a2->closed : a2->m;
     bound_t *nx = a1->nsc;
     bound_t *ny = a2->nsc;
-    bound_t *sx = x;
-    bound_t *sy = y;
-    size_t dim = a1->dim;
     for (i=0;i<4*a1->dim;i++)
       for (j=0;j<=(i|1);j++,x++,y++,nx++,ny++)
       {
-    	  if(i > 2 * dim &&( bound_cmp_int(sx[avo_matpos2( i - 2 * dim  + 1, i - 2 * dim )],0)>= 0||bound_cmp_int(sx[avo_matpos2( i - 2 * dim  , i - 2 * dim + 1)],0)<= 0))
-    	  	continue;
-    	  if(j > 2 * dim &&( bound_cmp_int(sx[avo_matpos2( j - 2 * dim  + 1, j - 2 * dim )],0)>= 0||bound_cmp_int(sx[avo_matpos2( j - 2 * dim  , j - 2 * dim + 1)],0)<= 0))
-    	  	continue;
-
-    	  if(i > 2 * dim &&( bound_cmp_int(sy[avo_matpos2( i - 2 * dim  + 1, i - 2 * dim )],0)>= 0||bound_cmp_int(sy[avo_matpos2( i - 2 * dim  , i - 2 * dim + 1)],0)<= 0))
-    	  	continue;
-    	  if(j > 2 * dim &&( bound_cmp_int(sy[avo_matpos2( j - 2 * dim  + 1, j - 2 * dim )],0)>= 0||bound_cmp_int(sy[avo_matpos2( j - 2 * dim  , j - 2 * dim + 1)],0)<= 0))
-    	  	continue;
 		  if (bound_cmp(*x,*y)>0 || (bound_cmp(*x,*y)==0 && bound_cmp(*nx,*ny)>0)) {
 			if (a1->closed) {
 				  /* not included on Q */
@@ -146,25 +134,14 @@ bool avo_is_eq(ap_manager_t* man, avo_t* a1, avo_t* a2)
     else { flag_algo; return false; }
   }
   else {
-    size_t i,j,dim;
+    size_t i,j;
     bound_t *x = a1->closed ? a1->closed : a1->m;
     bound_t *y = a2->closed ? a2->closed : a2->m;
     bound_t *nx = a1->nsc;
     bound_t *ny = a2->nsc;
-    bound_t *sx = x;
-    bound_t *sy = y;
-    dim = a1->dim;
-    for (i=0;i<2*a1->dim;i++)
+    for (i=0;i<4*a1->dim;i++)
       for (j=0;j<=(i|1);j++,x++,y++,nx++,ny++)
       {
-    	  if(i > 2 * dim &&( bound_cmp_int(sx[avo_matpos2( i - 2 * dim  + 1, i - 2 * dim )],0)>= 0||bound_cmp_int(sx[avo_matpos2( i - 2 * dim  , i - 2 * dim + 1)],0)<= 0))
-    	    	  continue;
-    	  if(j > 2 * dim &&( bound_cmp_int(sx[avo_matpos2( j - 2 * dim  + 1, j - 2 * dim )],0)>= 0||bound_cmp_int(sx[avo_matpos2( j - 2 * dim  , j - 2 * dim + 1)],0)<= 0))
-    	    	  continue;
-    	  if(i > 2 * dim &&( bound_cmp_int(sy[avo_matpos2( i - 2 * dim  + 1, i - 2 * dim )],0)>= 0||bound_cmp_int(sy[avo_matpos2( i - 2 * dim  , i - 2 * dim + 1)],0)<= 0))
-    	    	  continue;
-    	  if(j > 2 * dim &&( bound_cmp_int(sy[avo_matpos2( j - 2 * dim  + 1, j - 2 * dim )],0)>= 0||bound_cmp_int(sy[avo_matpos2( j - 2 * dim  , j - 2 * dim + 1)],0)<= 0))
-    	    	  continue;
           if (bound_cmp(*x,*y)||bound_cmp(*nx,*ny)!=0) {
 			if (a1->closed) {
 			  /* not equal on Q */
-- 
2.43.0


From 51554c2d668eb2e27dd332b0af22693ec39a1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:06 +0000
Subject: [PATCH 43/46] fix: avo_deserialize_raw reports all the bytes it read

---
 avoct/avo_print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avoct/avo_print.c b/avoct/avo_print.c
index 99e1411..ba2d613 100755
--- a/avoct/avo_print.c
+++ b/avoct/avo_print.c
@@ -220,7 +220,7 @@ avo_t* avo_deserialize_raw(ap_manager_t* man, void* ptr, size_t* size)
 		r->closed = avo_hmat_alloc(pr,dim);
 		*size = 10 + bound_deserialize_array(r->closed,(char*)ptr+10,avo_matsize(dim));
 		r->nsc = avo_hmat_alloc(pr,dim);
-		*size = 10 + bound_deserialize_array(r->nsc,(char*)ptr+(*size),avo_matsize(dim));
+		*size = *size + bound_deserialize_array(r->nsc,(char*)ptr+(*size),avo_matsize(dim));
 		break;
 	  default: assert(0);
   }
-- 
2.43.0


From 8a826f27d67ad127e16fabbfb804d152f6e505a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 44/46] fix: avo_assign_linexpr keeps what the two halves of
 the assignment lost

---
 avoct/avo_transfer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/avoct/avo_transfer.c b/avoct/avo_transfer.c
index 8a75e45..2d31b47 100755
--- a/avoct/avo_transfer.c
+++ b/avoct/avo_transfer.c
@@ -1057,7 +1057,10 @@ avo_t* avo_assign_linexpr(ap_manager_t* man,
 	  avo_hmat_close_incremental(m2,nsc2,a->dim, d);
 	  a1 = avo_assign_linexpr_d_fixed_sign(pr,true,a1,d,expr,NULL);
 	  a2 = avo_assign_linexpr_d_fixed_sign(pr,true,a2,d,expr,NULL);
+	  /* avo_join resets the flags: remember what both halves lost */
+	  bool best = man->result.flag_best;
 	  a12 = avo_join(man,false,a1,a2);
+	  if (!best) flag_incomplete;
 	  /* intersect with dest */
 	  if (dest) {
 	    bound_t* m_d = dest->closed ? dest->closed : dest->m;
-- 
2.43.0


From a79c56f63a4744fa7f73d1ad42dd12ee4c65fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 45/46] fix: avo_add_epsilon does not report a perturbed value
 as exact

---
 avoct/avo_nary.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/avoct/avo_nary.c b/avoct/avo_nary.c
index 6eef27d..40f3788 100755
--- a/avoct/avo_nary.c
+++ b/avoct/avo_nary.c
@@ -375,6 +375,7 @@ avo_t* avo_add_epsilon(ap_manager_t* man, avo_t* a, ap_scalar_t* epsilon)
   avo_internal_t* pr = avo_init_from_manager(man,AP_FUNID_WIDENING,2);
   avo_t* r = avo_alloc_internal(pr,a->dim,a->intdim);
   bound_t* m;
+  flag_incomplete;
   m = a->m ? a->m : a->closed;
   if (m) {
     size_t i;
@@ -419,6 +420,7 @@ avo_t* avo_add_epsilon_bin(ap_manager_t* man, avo_t* a1, avo_t* a2,
 {
   avo_internal_t* pr = avo_init_from_manager(man,AP_FUNID_WIDENING,2);
   avo_t* r;
+  flag_incomplete;
   arg_assert(a1->dim==a2->dim && a1->intdim==a2->intdim,return NULL;);
   if (!a1->closed && !a1->m)
     /* a1 definitively closed */
-- 
2.43.0


From 6f8c71ec7cef57658b1457019a40ede66c0002d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 46/46] fix: ap_abstract0_fold: dimensions of the value
 returned for a rejected array

With an empty array the top returned had one real dimension too many; with an
array longer than the dimensions of its kind the numbers wrapped around. As
ap_abstract0_remove_dimensions does, remove at most what there is, and
nothing for an empty array.
---
 apron/ap_abstract0.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index cc2d0e9..e48cd40 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -1389,9 +1389,16 @@ ap_abstract0_t* ap_abstract0_fold(ap_manager_t* man,
   else {
   _ap_abstract0_fold_exc:
     if (destructive) _ap_abstract0_free(a);
+    /* the array may be invalid: do not remove more dimensions than there are */
+    if (size>0){
+      if (tdim[0]<dimension.intdim)
+	dimension.intdim -= (size-1<dimension.intdim) ? size-1 : dimension.intdim;
+      else
+	dimension.realdim -= (size-1<dimension.realdim) ? size-1 : dimension.realdim;
+    }
     return ap_abstract0_top(man,
-			    dimension.intdim - ( (size>0 && tdim[0]<dimension.intdim) ? (size-1) : 0),
-			    dimension.realdim - ( (size>0 && tdim[0]<dimension.intdim) ? 0 : (size-1)));
+			    dimension.intdim,
+			    dimension.realdim);
   }
 }
 /* ============================================================ */
-- 
2.43.0

