From e31523e3d45031f49d2035da4d41391bae3e4db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:38 +0000
Subject: [PATCH 001/110] fix: plc_read overran its constraint table for curves
 with 30 or more constraints

---
 src/plCurve.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 69ff4f1..93cf78f 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1307,11 +1307,14 @@ void plc_fix_wrap(plCurve * const L) {
         "plc_read: Couldn't parse constraint number from '%s'.\n",place);
       return NULL;
     }
-    if (cst_num+1 > (int)cst_list_len) {
-      cst_list_len = (size_t)(10*((cst_num+11) % 10)); /* Allocate by 10s */
+    if ((size_t)cst_num >= cst_list_len) {
+      size_t old_len = cst_list_len;
+      cst_list_len = 10*((size_t)cst_num/10 + 1); /* Allocate by 10s */
       assert(cst_list->next == NULL);
       cst_list = realloc(cst_list,cst_list_len*sizeof(plc_constraint));
       assert(cst_list != NULL);
+      memset(&cst_list[old_len],0,
+             (cst_list_len-old_len)*sizeof(plc_constraint));
     }
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
-- 
2.43.0


From b017b04e27574cac73658893e301a548f7502505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:38 +0000
Subject: [PATCH 002/110] fix: plc_read accepted files without the VECT keyword

---
 src/plCurve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 93cf78f..0f27f7c 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1179,6 +1179,7 @@ void plc_fix_wrap(plCurve * const L) {
   plc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
   int cst_num, prev_cst_num, prev_cst_vert;
+  char keyword[5] = "";
 
   assert(file != NULL);
   assert(error_str_len > 0);
@@ -1186,7 +1187,7 @@ void plc_fix_wrap(plCurve * const L) {
   *error_num = 0;
 
   /* First, we check for the 'VECT' keyword. */
-  if (fscanf(file," VECT ") == EOF) {
+  if (fscanf(file," %4s",keyword) != 1 || strcmp(keyword,"VECT") != 0) {
     *error_num = PLC_E_NO_VECT;
     (void)snprintf(error_str,error_str_len,
         "plc_read: Couldn't find VECT keyword.\n");
-- 
2.43.0


From 6a086df96f913572d8cc7018cb5f7df46919dda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:22 +0000
Subject: [PATCH 003/110] fix: plc_read aborted on files with impossible vertex
 or color counts

---
 src/plCurve.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 0f27f7c..ba63c7c 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -42,6 +42,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 #include <time.h>
 
 /* Utility routines */
@@ -1235,6 +1236,16 @@ void plc_fix_wrap(plCurve * const L) {
     }
     /* A negative number of vertices indicates a CLOSED component. */
     open[i] = (nvarray[i] >= 0);
+    if (nvarray[i] == 0 ||
+        nvarray[i] > INT_MAX-2 || nvarray[i] < -(INT_MAX-2)) {
+      *error_num = PLC_E_BAD_CVRT_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Component %d can't have %d vertices.\n",i,nvarray[i]);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
     nvarray[i] = abs(nvarray[i]);
   }
   /*@=loopexec@*/
@@ -1252,6 +1263,16 @@ void plc_fix_wrap(plCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (ccarray[i] < 0 || ccarray[i] > nvarray[i]) {
+      *error_num = PLC_E_BAD_CC;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Component %d can't have %d colors on %d vertices.\n",
+          i,ccarray[i],nvarray[i]);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
   }
   /*@=loopexec@*/
 
-- 
2.43.0


From 3aa050d3357cccb133c8220df274960bdfe1b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 004/110] fix: plc_read printed freed memory in two of its
 error messages

---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index ba63c7c..80aa958 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1323,10 +1323,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_NUM;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Couldn't parse constraint number from '%s'.\n",place);
+      free(comment);
       return NULL;
     }
     if ((size_t)cst_num >= cst_list_len) {
@@ -1415,10 +1415,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_KIND;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Unrecognized constraint kind '%s'.\n",place);
+      free(comment);
       return NULL;
     }
   }
-- 
2.43.0


From cd0f78fce6a963f4da15e759395ff3003498ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 005/110] fix: plc_read used constraint numbers that the file
 never defines

---
 src/plCurve.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 80aa958..00bcf41 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1458,6 +1458,19 @@ void plc_fix_wrap(plCurve * const L) {
         }
       }
       free(comment);
+      if (cst_num < 0 || (size_t)cst_num >= cst_list_len ||
+          (cst_num != 0 && cst_list[cst_num].kind == unconstrained) ||
+          (cst_num != 0 && cst_list[cst_num].kind == fixed &&
+           cst_num == prev_cst_num)) {
+        plc_free(L);
+        assert(cst_list->next == NULL);
+        free(cst_list);
+        *error_num = PLC_E_BAD_CST_NUM;
+        (void)snprintf(error_str,error_str_len,
+          "plc_read: Vertex %d of component %d can't have constraint %d.\n",
+          j,i,cst_num);
+        return NULL;
+      }
       if (cst_num != prev_cst_num) {
         if (prev_cst_num != 0) {
           plc_set_constraint(L, i, prev_cst_vert, j - prev_cst_vert,
-- 
2.43.0


From d79abd0895d21f33f5744ea1996e7a65b0cc788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 006/110] fix: plc_write cut off constraint numbers after long
 coordinates

---
 src/plCurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 00bcf41..65047b3 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -800,7 +800,7 @@ void plc_write(FILE *outfile, plCurve * const L) {
   int i,j;                  /* Counters for the for loops */
   int nverts = 0;           /* Total number of vertices of all components */
   int colors = 0;           /* Total number of colors of all components */
-  char outstr[80] = "";     /* So we can wrap the vertex lines */
+  char outstr[128] = "";    /* So we can wrap the vertex lines */
   char outstr2[80] = "";    /* Again for wrapping */
   int cst_num;              /* This constraint */
   int **cst_nums = NULL;    /* All constraint numbers */
-- 
2.43.0


From 597e09e418c91d1f9231965a3303ce1cb1425895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 007/110] fix: plc_write saved constraints with only 6 digits

---
 src/plCurve.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 65047b3..34f9c2b 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -870,13 +870,15 @@ void plc_write(FILE *outfile, plCurve * const L) {
                                 cst->num_verts, cst_list);
       cst_num++;
       if (cst->kind == fixed) {
-        fprintf(outfile, "# Constraint %d Fixed %g %g %g\n", cst_num,
+        fprintf(outfile, "# Constraint %d Fixed %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]));
       } else if (cst->kind == line) {
-        fprintf(outfile, "# Constraint %d Line %g %g %g %g %g %g\n", cst_num,
+        fprintf(outfile,
+          "# Constraint %d Line %.16g %.16g %.16g %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]), plc_M_clist(cst->vect[1]));
       } else if (cst->kind == plane) {
-      fprintf(outfile, "# Constraint %d Plane %g %g %g %g\n", cst_num,
+      fprintf(outfile,
+          "# Constraint %d Plane %.16g %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]), cst->vect[1].c[0]);
       }
     }
-- 
2.43.0


From 12c5256e7e641ff668cb0ea714de3da048ebcb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 008/110] fix: constraints stayed on the old component numbers
 when components were added or dropped

---
 src/plCurve.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 34f9c2b..a591d3b 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2070,6 +2070,7 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
                       const plc_vector * const vt,
            /*@null@*/ const plc_color * const clr) {
   plc_strand *cp;
+  plc_constraint *cst;
 
   assert(L != NULL);
   assert(nv >= 1);
@@ -2088,6 +2089,9 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
     memmove(&(L->cp[add_as+1]),&(L->cp[add_as]),
         (L->nc-add_as-1)*sizeof(plc_strand));
   }
+  for (cst = L->cst; cst != NULL; cst = cst->next) {
+    if (cst->cmp >= add_as) { cst->cmp++; } /* Constraints move with their strands */
+  }
   cp = &L->cp[add_as];
   cp->open = open;
 
@@ -2115,6 +2119,7 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
 
 void plc_drop_component(plCurve *L, const int cmp) {
   int cnt;
+  plc_constraint **cst_pptr,*cst;
 
   assert(L != NULL);
   assert(cmp >= 0);
@@ -2128,6 +2133,17 @@ void plc_drop_component(plCurve *L, const int cmp) {
   for (cnt = cmp; cnt < L->nc; cnt++) {
     L->cp[cnt] = L->cp[cnt+1];
   }
+  /* The constraints of this component go with it, later ones are renumbered */
+  cst_pptr = &L->cst;
+  while ((cst = *cst_pptr) != NULL) {
+    if (cst->cmp == cmp) {
+      *cst_pptr = cst->next;
+      free(cst);
+    } else {
+      if (cst->cmp > cmp) { cst->cmp--; }
+      cst_pptr = &cst->next;
+    }
+  }
   /* Leave the memory sitting as the cost of the extra few bytes is small 
      compared to the cost of a realloc.  It will get cleaned up at the end and
      may get reused before then. */
-- 
2.43.0


From 2552f24b860639179185c13a9e3288670329e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 009/110] fix: plc_double_verts wrote outside the color buffer
 of uncolored curves and lost the last color

---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index a591d3b..fe8cbbe 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2436,9 +2436,9 @@ plCurve *plc_double_verts(plCurve *L)
 
       newL->cp[cmp].clr[0] = L->cp[cmp].clr[0];
 
-    } else {
+    } else if (newL->cp[cmp].cc > 1) {
 
-      for(vt=0;vt<L->cp[cmp].nv-1;vt++) {
+      for(vt=0;vt<L->cp[cmp].nv;vt++) {
 
 	newL->cp[cmp].clr[2*vt+1] = newL->cp[cmp].clr[2*vt] = L->cp[cmp].clr[vt];
 	
-- 
2.43.0


From 3485e65b3e50dda5430254ad896cea0eea407d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 010/110] fix: plc_resize_colorbuf leaked the empty color
 buffer of uncolored components

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index fe8cbbe..6809f26 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2177,6 +2177,7 @@ void plc_resize_colorbuf(plCurve *L,const int cp, const int cc)
     if (L->cp[cp].cc == 0) { /* There is no existing data, and we are adding some. */
 
       L->cp[cp].cc = cc;
+      free(L->cp[cp].clr); /* May be an empty buffer */
       L->cp[cp].clr = calloc(sizeof(plc_color),cc);
       assert(L->cp[cp].clr != NULL);
 
-- 
2.43.0


From ed2d84d4c78c545463ec77dfe6538972911cacf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:04 +0000
Subject: [PATCH 011/110] fix: equal constraints on different components were
 joined into one

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 6809f26..eef66a6 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -507,6 +507,7 @@ static inline void overrun_check(plc_constraint *cst) {
   }
   /* Now combine adjacent constraints if possible */
   while (cst->next != NULL &&
+         cst->next->cmp == cst->cmp &&
          cst->next->vert == cst->vert+cst->num_verts &&
          cst->next->kind == cst->kind &&
          cst->kind != fixed &&
-- 
2.43.0


From 875c59eaea3e5a79e35dc6a306959980cbddb0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:12 +0000
Subject: [PATCH 012/110] fix: plc_read ran past the end of a comment that
 stops after a constraint

---
 src/plCurve.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index eef66a6..34ee651 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1179,7 +1179,7 @@ void plc_fix_wrap(plCurve * const L) {
   int ds; /* Doubles scanned */
   /*@temp@*/ char *place;
   char *space = " ";
-  size_t parsed;
+  size_t parsed, comment_len;
   plc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
   int cst_num, prev_cst_num, prev_cst_vert;
@@ -1303,6 +1303,7 @@ void plc_fix_wrap(plCurve * const L) {
   while ((place = strcasestr(comment,"Constraint ")) != NULL) {
     /* Move the word "Constraint to the beginning of the string */
     memmove(comment,place,strlen(place)+1);
+    comment_len = strlen(comment);
     /* Now start tokenizing */
     place = strtok(comment, space); /* "Constraint" */
 #define place_not_null \
@@ -1365,6 +1366,7 @@ void plc_fix_wrap(plCurve * const L) {
         place_not_null;
         parsed += strlen(place)+1;
       }
+      if (parsed > comment_len) { parsed = comment_len; } /* Last on the line */
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else if (strcasestr(place,"Line") != NULL) {
       cst_list[cst_num].kind = line;
@@ -1389,6 +1391,7 @@ void plc_fix_wrap(plCurve * const L) {
         place_not_null;
         parsed += strlen(place)+1;
       }
+      if (parsed > comment_len) { parsed = comment_len; } /* Last on the line */
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else if (strcasestr(place,"Plane") != NULL) {
       cst_list[cst_num].kind = plane;
@@ -1413,6 +1416,7 @@ void plc_fix_wrap(plCurve * const L) {
         place_not_null;
         parsed += strlen(place)+1;
       }
+      if (parsed > comment_len) { parsed = comment_len; } /* Last on the line */
       memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
     } else {
       plc_free(L);
-- 
2.43.0


From 9cd2997534f82d185fd55a801cb2307febd6219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:17 +0000
Subject: [PATCH 013/110] fix: pd_read_KnotTheory wrote outside its arrays for
 bad edge numbers and misread links with two-edge components

---
 src/pdcode.c | 571 +++++++++++++--------------------------------------
 1 file changed, 138 insertions(+), 433 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 354efaf..653f362 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3685,7 +3685,8 @@ ones we don't need.
 
   crbuf_used++;
 
-  for(;fgetc(infile) == ',';crbuf_used++) {
+  int sep = EOF;
+  for(;fscanf(infile," ") == 0 && (sep = fgetc(infile)) == ',';crbuf_used++) {
 
     if (fscanf(infile," X[ %d, %d, %d, %d ]",
 	       &(crbuf[crbuf_used].edge[0]),
@@ -3712,530 +3713,233 @@ ones we don't need.
 
   /* We have now read all the crossings and won't bother with the file anymore. Our job is
      to extract the information needed to allocate and fill a pd_code_t from this buffer,
-     then free it. The first task is to allocate space for the code. */
+     then free it. Before we do that, we make sure that the list was complete, and that the
+     edges are numbered 1..(2 * number of crossings), with each number used exactly twice. */
 
-  pd_code_t *pd = pd_code_new(crbuf_used+2);
-  assert(pd != NULL);
-
-  pd_idx_t cr;
+  int nedges = 2*crbuf_used, cr_pos, e;
+  int *edge_slot = calloc(2*nedges,sizeof(int)); /* edge_slot[2e] and [2e+1] are the positions of edge e */
+  int *edge_seen = calloc(nedges,sizeof(int));
+  int *dir = calloc(2*nedges,sizeof(int)); /* dir[4*cr + pos] is +1 for IN, -1 for OUT, 0 for not known */
+  assert(edge_slot != NULL && edge_seen != NULL && dir != NULL);
 
-  /* Now we're going to scan through and set crossings AND EDGES. */
+  bool corrupt = (sep != ']');
 
-  for(cr=0;cr<crbuf_used;cr++) {
-
-    pd_idx_t j;
-    for(j=0;j<4;j++) {
-
-      pd->cross[cr].edge[j] = crbuf[cr].edge[j]-1;
+  for(cr_pos=0;cr_pos<4*crbuf_used && !corrupt;cr_pos++) {
 
-      if (j==0) { /* We're definitely going IN */
-
-	pd->edge[pd->cross[cr].edge[j]].head = cr;
-	pd->edge[pd->cross[cr].edge[j]].headpos = 0;
-
-      } else if (j==2) { /* We're definitely going OUT */
-
-	pd->edge[pd->cross[cr].edge[j]].tail = cr;
-	pd->edge[pd->cross[cr].edge[j]].tailpos = 2;
-
-      }
-
-      /* In positions 1 and 3 we don't know yet, and we'll have to
-	 use more information to figure out edge orientation. */
-
-    }
+    e = (int)(crbuf[cr_pos/4].edge[cr_pos%4]);
 
-    /* Determining sign is a lot trickier. Recall that the
-       convention used to determine sign is this:
-
-            ^
-            |
-       ----------->
-            |
-            |
-	    0
-
-     positive crossing
-     (upper tangent vector) x (lower tangent vector) points OUT of screen.
-     This is true when the edges in positions 1 and 3 are in the order 3 -> 1.
-
-            ^
-            |
-      0-----|----->
-            |
-            |
-
-     negative crossing
-     (upper tangent vector) x (lower tangent vector) points INTO screen.
-     This is true when the edges in positions 1 and 3 are in the order 1 -> 3.
-
-     The problem (and it's a large one) is that the edge numbers wrap
-     around at the end of the component.
-
-     So if pd->cross[cr].edge[3] and pd->cross[cr].edge[1] differ by
-     1, we know which way the strand is going -- it's going in the
-     "up" direction.
-
-     If they differ by more than one, the strand indices are wrapping
-     around, and the strand goes in the "down" direction.
-
-     For a 2 edge component, we're going to need a better algorithm:
-
-        If the two-edge component lies OVER the remainder of the link,
-	its' orientation is genuinely unspecified by the KnotTheory
-	data. In this case, we can assign either orientation to the
-	component, but must do so consistently.
-
-	If the two-edge component is Hopf-linked to the rest of the link,
-	it's orientation IS specified, but only by the crossing where it
-	goes UNDER.
-
-    */
-
-    if (pd->cross[cr].edge[3] - pd->cross[cr].edge[1] == 1) { // 1 -> 3
-
-      pd->cross[cr].sign = PD_NEG_ORIENTATION;
-
-      pd->edge[pd->cross[cr].edge[1]].head = cr;
-      pd->edge[pd->cross[cr].edge[1]].headpos = 1;
-
-      pd->edge[pd->cross[cr].edge[3]].tail = cr;
-      pd->edge[pd->cross[cr].edge[3]].tailpos = 3;
-
-    } else if (pd->cross[cr].edge[1] - pd->cross[cr].edge[3] == 1) { // 3 -> 1
-
-      pd->cross[cr].sign = PD_POS_ORIENTATION;
-
-      pd->edge[pd->cross[cr].edge[3]].head = cr;
-      pd->edge[pd->cross[cr].edge[3]].headpos = 3;
-
-      pd->edge[pd->cross[cr].edge[1]].tail = cr;
-      pd->edge[pd->cross[cr].edge[1]].tailpos = 1;
-
-    } else if (pd->cross[cr].edge[1] > pd->cross[cr].edge[3]) { // 1 -> 3, wrapping
-
-      pd->cross[cr].sign = PD_NEG_ORIENTATION;
-
-      pd->edge[pd->cross[cr].edge[1]].head = cr;
-      pd->edge[pd->cross[cr].edge[1]].headpos = 1;
-
-      pd->edge[pd->cross[cr].edge[3]].tail = cr;
-      pd->edge[pd->cross[cr].edge[3]].tailpos = 3;
-
-    } else { // 3 -> 1, wrapping
-
-      pd->cross[cr].sign = PD_POS_ORIENTATION;
-
-      pd->edge[pd->cross[cr].edge[3]].head = cr;
-      pd->edge[pd->cross[cr].edge[3]].headpos = 3;
-
-      pd->edge[pd->cross[cr].edge[1]].tail = cr;
-      pd->edge[pd->cross[cr].edge[1]].tailpos = 1;
-
-
-    }
+    if (e < 1 || e > nedges || edge_seen[e-1] == 2) { corrupt = true; }
+    else { edge_slot[2*(e-1) + edge_seen[e-1]++] = cr_pos; }
 
   }
 
-  pd->ncross = crbuf_used;
-  pd->nedges = 2*crbuf_used;
-  pd->nfaces = crbuf_used + 2;
-
-  /* We now search for two-edge components in the list. Unfortunately,
-     none of the existing "regenerate" codes are going to do the trick here,
-     because they all resort the crossings, losing the information we'll
-     need to correct our past errors (if any).
-  */
-
-  pd_idx_t crA, crB;
-
-  for(crA=0;crA<pd->ncross-1;crA++) {
+  /* Now we find the direction of each strand. The understrand comes IN
+     at position 0 and goes OUT at position 2. That determines the
+     direction of every component which goes under at least once, because
+     each edge comes OUT at one end and goes IN at the other and each strand
+     passes through its crossings. Hence we start with the understrands, and
+     carry their directions as far along the components as they go.
 
-    for(crB=crA+1;crB<pd->ncross;crB++) {
+     If this doesn't reach some crossing, then the overstrand there is on
+     a component which lies OVER the remainder of the link. In this
+     case, we have to use the edge numbers: if the edges in positions 1
+     and 3 differ by 1, the strand goes in the "up" direction. If they
+     differ by more than one, the strand indices are wrapping around,
+     and the strand goes in the "down" direction.
 
+     (If the component has only two edges, its' orientation is
+     genuinely unspecified by the KnotTheory data. We can assign either
+     orientation to the component, but must do so consistently.) */
 
-      /*       +------<--e2-----+
-	       |                |
-	       |0               |2
-	   1   |    3        3  |   1
-	+-------------->---------------+
-	 crA   |                |   crB
-	       |2               |0
-	       |                |
-	       +------->--e1----+
+  int scan = 0;
 
-      */
+  for(cr_pos=0;cr_pos<4*crbuf_used && !corrupt;cr_pos++) {
 
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[3]) {
+    if (cr_pos%4 == 0) { dir[cr_pos] = +1; }
+    else if (cr_pos%4 == 2) { dir[cr_pos] = -1; }
 
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-
-      /*       +------->-e2-----+
-	       |                |
-	       |2               |0
-	   3   |    1        1  |   3
-	+-------------->---------------+
-	 crA   |                |   crB
-	       |0               |2
-	       |                |
-	       +-------<-e1-----+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[1]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +------->-e2-----+
-	       |                |
-	       |3               |3
-	   0   |    2        0  |   2
-	+------|------->--------|------+
-	 crA   |                |   crB
-	       |1               |1
-	       |                |
-	       +-------<--e1----+
-
-	   taken as default, instead of
+  }
 
-	       +----------------+
-	       |                |
-	       |3               |3
-	   0   |    2        0  |   2
-	+------|------->--------|------+
-	 crA   |                |   crB
-	       |1               |1
-	       |                |
-	       +------->--------+
+  while (!corrupt) {
 
-	   which has the same pd code.
-      */
+    bool changed = true;
 
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2]) {
+    while (changed) {
 
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
+      changed = false;
 
-	pd_idx_t e1, e2;
+      for(e=0;e<nedges;e++) {
 
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
+	int *a = &(dir[edge_slot[2*e]]), *b = &(dir[edge_slot[2*e+1]]);
 
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+	if (*a == 0 && *b != 0) { *a = -*b; changed = true; }
+	if (*b == 0 && *a != 0) { *b = -*a; changed = true; }
 
       }
 
-      /*       +-------->-e2----+
-	       |                |
-	       |1               |1
-	   2   |    0        2  |   0
-	+------|-------<--------|------+
-	 crA   |                |   crB
-	       |3               |3
-	       |                |
-	       +-------<-e1-----+
-
-	   taken as default, instead of
-
-	       +----------------+
-	       |                |
-	       |1               |1
-	   2   |    0        2  |   0
-	+------|-------<--------|------+
-	 crA   |                |   crB
-	       |3               |3
-	       |                |
-	       +------->--------+
+      for(cr_pos=0;cr_pos<4*crbuf_used;cr_pos+=4) {
 
-	   which has the same pd code.
-      */
+	int *a = &(dir[cr_pos+1]), *b = &(dir[cr_pos+3]);
 
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[0]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+	if (*a == 0 && *b != 0) { *a = -*b; changed = true; }
+	if (*b == 0 && *a != 0) { *b = -*a; changed = true; }
 
       }
 
-      /*       +-------<---e2---+
-	       |                |
-	       |3               |2
-	   0   |    2        3  |   1
-	+------|------->---------------+
-	 crA   |                |   crB
-	       |1               |0
-	       |                |
-	       +------->---e1---+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
+    }
 
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+    for(;scan<crbuf_used && dir[4*scan+1] != 0;scan++);
+    if (scan == crbuf_used) { break; }
 
-      }
+    int e1 = (int)(crbuf[scan].edge[1]), e3 = (int)(crbuf[scan].edge[3]);
 
-      /*       +------<---e2----+
-	       |                |
-	       |1               |2
-	   2   |    0        3  |   1
-	+------|-------<---------------+
-	 crA   |                |   crB
-	       |3               |0
-	       |                |
-	       +------->--e1----+
+    if (e3 - e1 == 1 || e1 - e3 > 1) { /* 1 -> 3, perhaps wrapping */
 
-      */
+      dir[4*scan+1] = +1; dir[4*scan+3] = -1;
 
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[0]) {
+    } else { /* 3 -> 1, perhaps wrapping */
 
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
+      dir[4*scan+1] = -1; dir[4*scan+3] = +1;
 
-	pd_idx_t e1, e2;
+    }
 
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
+  }
 
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+  for(e=0;e<nedges && !corrupt;e++) {
 
-      }
+    corrupt = (dir[edge_slot[2*e]] + dir[edge_slot[2*e+1]] != 0);
 
-      /*       +------->---e2---+
-	       |                |
-	       |1               |0
-	   2   |    0        1  |   3
-	+------|-------<---------------+
-	 crA   |                |   crB
-	       |3               |2
-	       |                |
-	       +-------<---e1---+
+  }
 
-      */
+  for(cr_pos=0;cr_pos<4*crbuf_used && !corrupt;cr_pos+=4) {
 
-      if (pd->cross[crB].edge[0] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[0]) {
+    corrupt = (dir[cr_pos+1] + dir[cr_pos+3] != 0);
 
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
+  }
 
-	pd_idx_t e1, e2;
+  /* Last, the crossings have to describe a connected diagram on the sphere.
+     We number the connected pieces and count the faces (we walk along each
+     edge and turn left at the end, as in pd_regenerate_faces). */
 
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
+  if (!corrupt) {
 
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+    int *reached = calloc(crbuf_used,sizeof(int)), *stack = calloc(crbuf_used,sizeof(int));
+    int *walked = calloc(4*crbuf_used,sizeof(int));
+    assert(reached != NULL && stack != NULL && walked != NULL);
 
-      }
+    int nreached = 1, depth = 1, nfaces = 0;
+    reached[0] = 1;
 
-      /*       +------>---e2----+
-	       |                |
-	       |3               |0
-	   0   |    2        1  |   3
-	+------|------->---------------+
-	 crA   |                |   crB
-	       |1               |2
-	       |                |
-	       +-------<--e1----+
+    while (depth > 0) {
 
-      */
+      int here = stack[--depth], pos;
 
-      if (pd->cross[crB].edge[0] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2]) {
+      for(pos=0;pos<4;pos++) {
 
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
+	int k;
 
-	pd_idx_t e1, e2;
+	for(k=0;k<2;k++) {
 
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
+	  int there = edge_slot[2*(crbuf[here].edge[pos]-1) + k]/4;
+	  if (!reached[there]) { reached[there] = 1; nreached++; stack[depth++] = there; }
 
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+	}
 
       }
 
+    }
 
-      /*       +------<-e2------+
-	       |                |
-	       |0               |3
-	   1   |    3        0  |   2
-	+-------------->--------|------+
-	 crA   |                |   crB
-	       |2               |1
-	       |                |
-	       +------->-e1-----+
-
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
+    for(cr_pos=0;cr_pos<4*crbuf_used;cr_pos++) {
 
-	pd_idx_t e1, e2;
+      int at = cr_pos;
+      if (!walked[at]) { nfaces++; }
 
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
+      while (!walked[at]) { /* Leave the crossing at "at", arrive at the far end of the edge, turn left. */
 
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+	walked[at] = 1;
+	e = (int)(crbuf[at/4].edge[at%4])-1;
+	at = (edge_slot[2*e] == at) ? edge_slot[2*e+1] : edge_slot[2*e];
+	at = 4*(at/4) + (at%4 + 3)%4;
 
       }
 
-      /*       +-------<--e2----+
-	       |                |
-	       |0               |1
-	   1   |    3        2  |   0
-	+--------------<--------|------+
-	 crA   |                |   crB
-	       |2               |3
-	       |                |
-	       +------->--e1----+
-
-      */
+    }
 
-      if (pd->cross[crB].edge[1] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[3]) {
+    corrupt = (nreached != crbuf_used || nfaces != crbuf_used + 2);
+    free(reached); free(stack); free(walked);
 
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
+  }
 
-	pd_idx_t e1, e2;
+  if (corrupt) {
 
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
+    printf("pd_read_KnotTheory: Crossings don't describe a link diagram. Suspect data is corrupt.\n");
+    free(edge_slot); free(edge_seen); free(dir); free(crbuf);
+    return NULL;
 
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+  }
 
+  pd_code_t *pd = pd_code_new(crbuf_used+2);
+  assert(pd != NULL);
 
-      }
+  pd_idx_t cr;
 
-      /*       +------->--e2----+
-	       |                |
-	       |0               |1
-	   1   |    3        2  |   0
-	+--------------<--------|------+
-	 crA   |                |   crB
-	       |2               |3
-	       |                |
-	       +-------<--e1----+
+  /* Now we're going to scan through and set crossings AND EDGES. */
 
-      */
+  for(cr=0;cr<crbuf_used;cr++) {
 
-      if (pd->cross[crB].edge[1] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[3]) {
+    pd_idx_t j;
+    for(j=0;j<4;j++) {
 
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
+      pd->cross[cr].edge[j] = crbuf[cr].edge[j]-1;
 
-	pd_idx_t e1, e2;
+      if (dir[4*cr+j] > 0) { /* We're going IN */
 
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
+	pd->edge[pd->cross[cr].edge[j]].head = cr;
+	pd->edge[pd->cross[cr].edge[j]].headpos = j;
 
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+      } else { /* We're going OUT */
 
+	pd->edge[pd->cross[cr].edge[j]].tail = cr;
+	pd->edge[pd->cross[cr].edge[j]].tailpos = j;
 
       }
 
-      /*       +------->--e2----+
-	       |                |
-	       |0               |3
-	   1   |    3        0  |   2
-	+-------------->--------|------+
-	 crA   |                |   crB
-	       |2               |1
-	       |                |
-	       +-------<--e1----+
-
-      */
+    }
 
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3]) {
+    /* Recall that the convention used to determine sign is this:
 
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
+            ^
+            |
+       ----------->
+            |
+            |
+	    0
 
-	pd_idx_t e1, e2;
+     positive crossing
+     (upper tangent vector) x (lower tangent vector) points OUT of screen.
+     This is true when the edges in positions 1 and 3 are in the order 3 -> 1.
 
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
+            ^
+            |
+      0-----|----->
+            |
+            |
 
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+     negative crossing
+     (upper tangent vector) x (lower tangent vector) points INTO screen.
+     This is true when the edges in positions 1 and 3 are in the order 1 -> 3.
 
-      }
+    */
 
-    }
+    pd->cross[cr].sign = (dir[4*cr+3] > 0) ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION;
 
   }
 
+  free(edge_slot); free(edge_seen); free(dir);
+
+  pd->ncross = crbuf_used;
+  pd->nedges = 2*crbuf_used;
+  pd->nfaces = crbuf_used + 2;
 
   /* We can now detect everything else by regenerating... */
 
@@ -4264,6 +3968,7 @@ ones we don't need.
   if (!pd_ok(pd)) {
 
     printf("pd_read_KnotTheory: Regenerated PD does not pass pd_ok. Suspect data is corrupt.\n");
+    pd_code_free(&pd);
     return NULL;
 
   }
-- 
2.43.0


From d7fae7ea018726f147b65ee7b570482ccce8397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:22 +0000
Subject: [PATCH 014/110] fix: pd_read overran its hash buffer for hashes of 32
 characters

---
 src/pdcode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 653f362..305ca76 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3122,7 +3122,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
   /* pd   <hash> <uid> */ /* Remember that the hash is base64 encoded using a-zA-Z;: character set */
 
   unsigned long int input_temp,input_temp2,input_temp3,input_temp4;
-  char hash[PD_HASHSIZE];
+  char hash[PD_HASHSIZE+1];
   pd_uid_t uid;
 
   /* The first thing we do is spin through whitespace until we encounter a "p" */
@@ -3153,6 +3153,9 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   int sscanf_result = sscanf(pd_line,hash_template,hash,&input_temp);
 
+  if (sscanf_result == 2 && strlen(hash) == PD_HASHSIZE) { sscanf_result = 1; }
+  /* There's no room for a hash this long (we need the trailing zero). */
+
   if (sscanf_result != 2) {
 
     /* Check for an incorrect hash. */
-- 
2.43.0


From 21a3458a4ecc6d6621f59135b974a25780b67341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:08 +0000
Subject: [PATCH 015/110] fix: pd_read ended the process or hung on cut-off
 zero-crossing codes and lost their number and hash

---
 src/pdcode.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 305ca76..a2f8298 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3254,7 +3254,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
      at least two more crossings than we see now (to prevent zero
      crossing diagrams from crashing everything). */
 
-  if ((pd_idx_t)(input_temp) == 0) {
+  if (input_temp == 0) {
 
     /* If we're a zero-crossing unknot, there is one piece of
        information that can actually matter, which is the tag
@@ -3278,29 +3278,40 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
     nottag=strcmp(rolling_buffer,"tag");
     for(;nottag != 0;nottag=strcmp(rolling_buffer,"tag")) {
 
+      int next_char = getc(infile);
+
       rolling_buffer[0] = rolling_buffer[1]; rolling_buffer[1] = rolling_buffer[2];
-      rolling_buffer[2] = (char)(getc(infile));
+      rolling_buffer[2] = (char)(next_char);
 
-      if (feof(infile)) {
+      if (next_char == EOF) {
 
 	pd_error(SRCLOC,
 		 "Reading 0 crossing pd code, we found eof before a component tag. ",NULL);
 	pd_err_set(err, PD_BAD_FORMAT);
-	exit(1);
+	return NULL;
 
       }
     }
 
-    fscanf(infile," %c ",&tag);
+    if (fscanf(infile," %c ",&tag) != 1) {
+
+      pd_error(SRCLOC,
+	       "Reading 0 crossing pd code, we found eof instead of a component tag. ",NULL);
+      pd_err_set(err, PD_BAD_FORMAT);
+      return NULL;
+
+    }
+
     pd_code_t *outcode;
     outcode = pd_build_unknot(0);
     outcode->comp[0].tag = tag;
+    if (sscanf_result == 2) { strcpy(outcode->hash,hash); outcode->uid = uid; }
 
-    /* Now we continue to scan until we see the letter p (a new pd-code) or feof. */
+    /* Now we continue to scan until we see the letter p (a new pd-code) or eof. */
 
     int read_char;
-    for(read_char = fgetc(infile);read_char != 'p' && !feof(infile);read_char = fgetc(infile));
-    if (!feof(infile)) {ungetc(read_char,infile);}
+    for(read_char = fgetc(infile);read_char != 'p' && read_char != EOF;read_char = fgetc(infile));
+    if (read_char != EOF) {ungetc(read_char,infile);}
 
     return outcode;
 
-- 
2.43.0


From 0ef262ed8b44e931c0350a205b5bd7e9ccabf33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:08 +0000
Subject: [PATCH 016/110] fix: pd_copy lost the tag, number and hash of
 zero-crossing codes

---
 src/pdcode.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index a2f8298..4ff718c 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2723,7 +2723,17 @@ pd_code_t *pd_copy_newsize(pd_code_t *pd, pd_idx_t MAXVERTS)
 {
   if (pd->ncross == 0) {
 
-    return pd_build_unknot(0);
+    pd_code_t *unknot = pd_build_unknot(0);
+
+    if (pd->ncomps == 1) {
+
+      unknot->uid = pd->uid;
+      unknot->comp[0].tag = pd->comp[0].tag;
+      memcpy(unknot->hash,pd->hash,PD_HASHSIZE);
+
+    }
+
+    return unknot;
 
   }
 
-- 
2.43.0


From 7e7728b8641cc8e5c720db0e9ad3106d5400eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:51 +0000
Subject: [PATCH 017/110] fix: pd_read aborted or read outside its arrays on
 corrupt codes instead of returning NULL

---
 src/pdcode.c | 116 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 95 insertions(+), 21 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 4ff718c..b9dce02 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3124,6 +3124,46 @@ void pd_write_c(FILE *outfile, pd_code_t *pd, char *pdname)
 
 }
 
+static pd_idx_t pdint_read_idx(unsigned long int input)
+/* The index given by a number in a file. Numbers which are too large don't name anything. */
+{
+  return (input < PD_UNSET_IDX) ? (pd_idx_t)(input) : PD_UNSET_IDX;
+}
+
+static bool pdint_references_ok(pd_code_t *pd)
+/* Checks that all the crossings and edges referred to in a pd code which was just read from a
+   file exist, so that it is safe to pass the code to the pd_regenerate and pd_ok functions. */
+{
+  pd_idx_t i,j;
+
+  for(i=0;i<pd->ncross;i++) {
+    for(j=0;j<4;j++) {
+      if (pd->cross[i].edge[j] >= pd->nedges) { return false; }
+    }
+  }
+
+  for(i=0;i<pd->nedges;i++) {
+    pd_edge_t *e = &(pd->edge[i]);
+    if (e->head >= pd->ncross || e->tail >= pd->ncross || e->headpos >= 4 || e->tailpos >= 4) { return false; }
+  }
+
+  for(i=0;i<pd->ncomps;i++) {
+    if (pd->comp[i].nedges == 0) { return false; }
+    for(j=0;j<pd->comp[i].nedges;j++) {
+      if (pd->comp[i].edge[j] >= pd->nedges) { return false; }
+    }
+  }
+
+  for(i=0;i<pd->nfaces;i++) {
+    if (pd->face[i].nedges == 0) { return false; }
+    for(j=0;j<pd->face[i].nedges;j++) {
+      if (pd->face[i].edge[j] >= pd->nedges) { return false; }
+    }
+  }
+
+  return true;
+}
+
 pd_code_t *pd_read_err(FILE *infile, int *err)
 
 /* Reads an (ASCII) pd code written by pd_write. Return a pointer if we succeed, NULL if we fail. */
@@ -3327,6 +3367,14 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   }
 
+  if (input_temp > UINT_MAX/2 - 2) {
+
+    pd_error(SRCLOC,"second line of pdcode file claims an impossible number of crossings\n",NULL);
+    pd_err_set(err, PD_BAD_FORMAT);
+    return NULL;
+
+  }
+
   pd_code_t *pd = pd_code_new((pd_idx_t)(input_temp));
 
   /* We now have to copy the hash into the new pd code. */
@@ -3363,7 +3411,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
       }
 
-      pd->cross[cross].edge[pos] = (pd_idx_t)(input_temp);
+      pd->cross[cross].edge[pos] = pdint_read_idx(input_temp);
 
     }
 
@@ -3399,7 +3447,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
     return NULL;
 
   }
-  pd->nedges = (pd_idx_t)(input_temp);
+  pd->nedges = pdint_read_idx(input_temp);
 
   if (pd->nedges > pd->MAXEDGES) {
 
@@ -3430,11 +3478,11 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     }
 
-    pd->edge[edge].tail = (pd_idx_t)(input_temp);
-    pd->edge[edge].tailpos = (pd_pos_t)(input_temp2);
+    pd->edge[edge].tail = pdint_read_idx(input_temp);
+    pd->edge[edge].tailpos = (pd_pos_t)pdint_read_idx(input_temp2);
 
-    pd->edge[edge].head = (pd_idx_t)(input_temp3);
-    pd->edge[edge].headpos = (pd_pos_t)(input_temp4);
+    pd->edge[edge].head = pdint_read_idx(input_temp3);
+    pd->edge[edge].headpos = (pd_pos_t)pdint_read_idx(input_temp4);
 
   }
 
@@ -3447,10 +3495,12 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	     "nc <ncomps>\n"
 	     "where <ncomps> is a positive integer\n"
 	     "but this one doesn't",pd);
-    pd_code_free(&pd); return NULL;
+    pd_err_set(err, PD_BAD_FORMAT);
+    pd_code_free(&pd);
+    return NULL;
 
   }
-  pd->ncomps = (pd_idx_t)(input_temp);
+  pd->ncomps = pdint_read_idx(input_temp);
 
   if (pd->ncomps > pd->MAXCOMPONENTS) {
 
@@ -3483,12 +3533,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     }
 
-    pd->comp[comp].nedges = (pd_idx_t)(input_temp);
-
-    /* We haven't allocated space in the component. */
-
-    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
-    assert(pd->comp[comp].edge != NULL);
+    pd->comp[comp].nedges = pdint_read_idx(input_temp);
 
     if (pd->comp[comp].nedges > pd->MAXEDGES) {
 
@@ -3502,6 +3547,11 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     }
 
+    /* We haven't allocated space in the component. */
+
+    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
+    assert(pd->comp[comp].edge != NULL);
+
     for(edge=0;edge<pd->comp[comp].nedges;edge++) {
 
       if(fscanf(infile," %lu ",&input_temp) != 1) {
@@ -3514,7 +3564,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
       }
 
-      pd->comp[comp].edge[edge] = (pd_idx_t)(input_temp);
+      pd->comp[comp].edge[edge] = pdint_read_idx(input_temp);
 
 
     }
@@ -3522,8 +3572,16 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
     /* Now we're at the end, and the next character is either "tag X" or a newline. */
     /* Skip whitespace until we find a character... */
 
-    char testchar;
-    fscanf(infile," %c",&testchar);
+    char testchar = 0;
+
+    if (fscanf(infile," %c",&testchar) != 1) {
+
+      pd_error(SRCLOC,"file ends after component %d\n",pd,comp);
+      pd_err_set(err, PD_BAD_FORMAT);
+      pd_code_free(&pd);
+      return NULL;
+
+    }
 
     if (testchar == 't') { /* for tag */
 
@@ -3564,7 +3622,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
     return NULL;
 
   }
-  pd->nfaces = (pd_idx_t)(input_temp);
+  pd->nfaces = pdint_read_idx(input_temp);
 
   if (pd->nfaces > pd->MAXFACES) {
 
@@ -3597,7 +3655,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     }
 
-    pd->face[face].nedges = (pd_idx_t)(input_temp);
+    pd->face[face].nedges = pdint_read_idx(input_temp);
 
     if (pd->face[face].nedges > pd->MAXEDGES) {
 
@@ -3642,16 +3700,32 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	pd_code_free(&pd); return NULL;
       }
 
-      pd->face[face].edge[edge] = (pd_idx_t)(input_temp);
+      pd->face[face].edge[edge] = pdint_read_idx(input_temp);
       pd->face[face].orient[edge] = (orientation[0] == '+') ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION;
 
     }
 
   }
 
+  if (!pdint_references_ok(pd)) {
+
+    pd_error(SRCLOC,"pd code read from file refers to crossings or edges which don't exist\n",NULL);
+    pd_err_set(err, PD_NOT_OK);
+    pd_code_free(&pd);
+    return NULL;
+
+  }
+
   pd_regenerate_crossings(pd); /* If the crossings were not in canonical order, fix it. */
 
-  pd_err_check(pd_ok(pd), err, PD_NOT_OK, pd);
+  if (!pd_ok(pd)) {
+
+    pd_err_set(err, PD_NOT_OK);
+    pd_code_free(&pd);
+    return NULL;
+
+  }
+
   if (strstr(pd->hash,"unset") != NULL) { pd_regenerate_hash(pd); }
 
   return pd;
-- 
2.43.0


From 592c25feafe53cab91aae52ef92a11a3fb20d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:51 +0000
Subject: [PATCH 018/110] fix: pd_ok leaked memory when a code was not ok

---
 src/pdcode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index b9dce02..afddd55 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2153,6 +2153,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
     if (!(pd->cross[cross].sign == PD_POS_ORIENTATION || pd->cross[cross].sign == PD_NEG_ORIENTATION || pd->cross[cross].sign == PD_UNSET_ORIENTATION)) {
 
+      free(edge_seen);
       return pd_error(SRCLOC,"%CROSS contains illegal sign %d in pd %PD",pd,
 		      cross,pd->cross[cross].sign);
 
@@ -2164,6 +2165,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
       if (!(edge < pd->nedges)) {
 
+	free(edge_seen);
 	return pd_error(SRCLOC,"%CROSS contains illegal edge number %d (not < number of edges %d) in pd %PD",
 			pd,
 			cross,edge,pd->nedges);
@@ -2194,6 +2196,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
       } else {
 
+	free(edge_seen);
 	return pd_error(SRCLOC,"%EDGE not seen twice in %PD",pd,edge);
 
       }
@@ -2207,6 +2210,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
     if (pd_cross_cmp(&(pd->cross[cross]),&(pd->cross[cross-1])) < 0) {
 
+      free(edge_seen);
       return pd_error(SRCLOC,"%CROSS and %CROSS are out of order in %PD",
 		      pd,cross-1,cross);
 
@@ -2445,6 +2449,7 @@ bool pd_comps_ok(pd_code_t *pd)
 
       }
 
+      free(tagset);
       return pd_error(SRCLOC,"components %COMP and %COMP of %PD have duplicate tags",pd,compA,compB);
 
     }
@@ -2464,6 +2469,7 @@ bool pd_comps_ok(pd_code_t *pd)
 
       }
 
+      free(tagset);
       return pd_error(SRCLOC,"component %COMP has illegal tag (< 'A')",pd,compA);
 
     }
-- 
2.43.0


From 7c35877c7395ad4572da12e6f6b191984219ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:53 +0000
Subject: [PATCH 019/110] fix: pd_read accepted codes whose list of faces is
 incomplete

---
 src/pdcode.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index afddd55..fefbbea 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3138,7 +3138,8 @@ static pd_idx_t pdint_read_idx(unsigned long int input)
 
 static bool pdint_references_ok(pd_code_t *pd)
 /* Checks that all the crossings and edges referred to in a pd code which was just read from a
-   file exist, so that it is safe to pass the code to the pd_regenerate and pd_ok functions. */
+   file exist, so that it is safe to pass the code to the pd_regenerate and pd_ok functions,
+   and that the list of faces is complete (which pd_ok doesn't check). */
 {
   pd_idx_t i,j;
 
@@ -3167,7 +3168,22 @@ static bool pdint_references_ok(pd_code_t *pd)
     }
   }
 
-  return true;
+  /* Each side of each edge should be on exactly one face. */
+
+  int *sides_seen = calloc(2*pd->nedges+1,sizeof(int));
+  assert(sides_seen != NULL);
+  bool sides_ok = true;
+
+  for(i=0;i<pd->nfaces;i++) {
+    for(j=0;j<pd->face[i].nedges;j++) {
+      sides_seen[2*pd->face[i].edge[j] + (pd->face[i].orient[j] == PD_POS_ORIENTATION ? 0 : 1)]++;
+    }
+  }
+
+  for(i=0;i<2*pd->nedges;i++) { sides_ok = sides_ok && (sides_seen[i] == 1); }
+  free(sides_seen);
+
+  return sides_ok;
 }
 
 pd_code_t *pd_read_err(FILE *infile, int *err)
-- 
2.43.0


From 513cc5d88bf0c7ab507531de0add663adc4efe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:49 +0000
Subject: [PATCH 020/110] fix: pd_unpack returned crossings without a sign as
 negative crossings

---
 src/pd_pack.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index d1236c0..dce7b32 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -423,6 +423,16 @@ pd_code_t *pd_unpack(unsigned int *bitform)
      and it should be ok to call pd_regenerate. */
 
   pd_regenerate(pd);
+
+  if (crtype == UNSIGNED_CROSSINGS) { 
+
+    /* The signs weren't stored: don't invent them. (This has to come
+       after pd_regenerate, which would otherwise reorient the edges.) */
+
+    for(k=0;k<pd->ncross;k++) { pd->cross[k].sign = PD_UNSET_ORIENTATION; }
+
+  }
+
   assert(pd_ok(pd));
   
   return pd;
-- 
2.43.0


From 6e86c8f8fc3b7b331adb02591b9a00e0db2ede0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:49 +0000
Subject: [PATCH 021/110] fix: storing a crossing-free diagram in a pdstor
 aborted

---
 src/pd_pack.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index dce7b32..61ff1d5 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -299,6 +299,13 @@ unsigned int *pd_pack(pd_code_t *pd,unsigned int *packedlength)
      signed or all are unset (we don't have a way to bitpack partially 
      set crossings) */
 
+  if (pd->ncross == 0) { /* The crossing-free diagram has no bits to store. */
+
+    *packedlength = 1;
+    return calloc(1,sizeof(unsigned int));
+
+  }
+
   int k;
   bool crossings_consistent = true;
 
@@ -387,6 +394,8 @@ pd_code_t *pd_unpack(unsigned int *bitform)
   
   pd_idx_t ncross;
   pd_signcross_t crtype;
+
+  if (bitform[0] == 0) { return pd_build_unknot(0); }
   
   if ((int)(bitform[0]) > 0) {
 
-- 
2.43.0


From 91e2592d37830e4d9afd1f4098b4574569bae2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:49 +0000
Subject: [PATCH 022/110] fix: pd_read_pdstor refused a corrupt header only
 when PD_VERBOSE is set

---
 src/pd_storage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index c2852af..78b027b 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -742,10 +742,11 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
       if (PD_VERBOSE) {
 
 	printf("pd_read_pdstor: Header of pdstor file appears corrupt.\n");
-	return NULL;
 
       }
 
+      return NULL;
+
     }
 
     nelts = nelts_claimed;
-- 
2.43.0


From 0f57806287044e49305a3017d614db1c2d23b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:14 +0000
Subject: [PATCH 023/110] fix: pd_read_pdstor refused every file with an
 unknown (?) number of elements

---
 src/pd_storage.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index 78b027b..93e2bba 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -15,6 +15,7 @@
 #endif
 
 #include<stdio.h>
+#include<ctype.h>
 #include<string.h>
 #include<stdlib.h>
 
@@ -767,6 +768,15 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
     }
 
+    if (nelts == UINT_MAX) { /* Unknown number of elements: stop at the end of the file. */
+
+      int ch;
+      do { ch = getc(stream); } while (isspace(ch));
+      if (ch == EOF) { break; }
+      ungetc(ch,stream);
+
+    }
+
     pd_code_t *pd = pd_read(stream);
 
     if (pd == NULL) { 
@@ -785,7 +795,7 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
   }
 
-  if (elt != nelts) { 
+  if ((nelts == UINT_MAX) ? ferror(stream) : (elt != nelts)) { 
 
     if (PD_VERBOSE) { printf("pd_read_pdstor: Only read %u of %u elements from file.\n",elt,nelts); }
     pd_free_pdstor(&pdstor);
@@ -795,7 +805,7 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
   if (PD_VERBOSE) { 
 
-    printf("pd_read_pdstor: Read %u elements from stream.\n",nelts);
+    printf("pd_read_pdstor: Read %u elements from stream.\n",elt);
     
   }
 
-- 
2.43.0


From bbbfa339a8c87298e6b885536aff231601f3e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:14 +0000
Subject: [PATCH 024/110] fix: pd_display_pdstor dereferenced NULL on an empty
 pdstor

---
 src/pd_storage.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index 93e2bba..b6af721 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -543,6 +543,8 @@ void pd_display_pdstor(FILE *stream,pd_stor_t *pdstor) /* Prints a representatio
   pd_uid_t   uid_min,uid_max;
 
   pd = pd_stor_firstelt(pdstor);
+  if (pd == NULL) { return; }
+
   strncpy(cur_hash,pd->hash,32);
   uid_min = pd->uid;
   uid_max = pd->uid;
-- 
2.43.0


From e7e2471d95cbc95a1bd13639a5a2a6f048a3f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:28 +0000
Subject: [PATCH 025/110] fix: pd_diagram_isotopic ended the process when
 component tags differ or are permuted, and leaked memory

---
 src/pd_isomorphisms.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 510598a..f57528f 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2562,25 +2562,40 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
     }
 
-    if (!tag_found) { /* Something weird has happened. */
+    if (!tag_found) { /* The tags don't match, so there's no diagram isotopy. */
 
-      pd_error(SRCLOC,"couldn't find tag from %COMP of pdA = %PD in",pdA,i);
-      pd_error(SRCLOC,"pdB = %PD\n",pdB);
-      exit(1);
+      pd_free_container(&isos,pd_free_fake);
+      pd_free_perm((void **)(&comp_perm));
+      *nisos = 0;
+      return NULL;
 
     }
 
   }
 
-  /* We SHOULD have assembled a permutation of components. */
+  /* If the tags of A are distinct, and so are those of B, we have
+     assembled a permutation of components; otherwise the tags don't
+     determine one and there's no diagram isotopy to report. */
 
-  if (!pd_perm_ok(comp_perm)) {
+  for(i=0;i<pdA->ncomps;i++) {
 
-    pd_error(SRCLOC,"matching tags in pd_diagram_isotopic yielded component permutation %PERM, which is not ok\n",pdA,comp_perm);
-    exit(1);
+    for(j=i+1;j<pdA->ncomps;j++) {
+
+      if (comp_perm->map[i] == comp_perm->map[j]) {
+
+	pd_free_container(&isos,pd_free_fake);
+	pd_free_perm((void **)(&comp_perm));
+	*nisos = 0;
+	return NULL;
+
+      }
+
+    }
 
   }
 
+  pd_regenerate_pcidx(comp_perm);
+
   /* Now, it's entirely possible that the two pd codes have the same number of components,
      and even a valid tagset, but that the permutation is impossible for some easy reason,
      like the number of edges between the different components doesn't match. We check for
@@ -2591,6 +2606,7 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
     if (pdA->comp[i].nedges != pdB->comp[comp_perm->map[i]].nedges) {
 
+      pd_free_container(&isos,pd_free_fake);
       pd_free_perm((void **)(&comp_perm));
       *nisos = 0;
       return NULL;
-- 
2.43.0


From 8c4a916e8ba7cf1d8debc5db570f572503068c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:57 +0000
Subject: [PATCH 026/110] fix: pd_diagram_isotopic ignored the orientation of
 components with two edges

---
 src/pd_isomorphisms.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index f57528f..6d3fbae 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -1083,6 +1083,23 @@ pd_crossmap_t *pdint_build_oriented_signed_crossmap(pd_code_t *pdA,pd_code_t *pd
 
   }
 
+  /* The edges are mapped preserving orientation, so their heads must
+     map to heads. (The search above can't see this when a component
+     has only two edges, since reversing it gives the same crossings.) */
+
+  pd_idx_t edge;
+
+  for(edge=0;edge<pdA->nedges;edge++) {
+
+    if (crossmap->perm->map[pdA->edge[edge].head] != pdB->edge[edgemap->perm->map[edge]].head) {
+
+      pd_free_crossmap(&crossmap);
+      return NULL;
+
+    }
+
+  }
+
   /* We have now generated the map for the permutation, but not
      identified it with a precomputed perm. We try: */
 
-- 
2.43.0


From 5b59ca4e58dd7e5283dae4abe0814d4494b5c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:39 +0000
Subject: [PATCH 027/110] fix: pdstors lost the component tags, so diagram
 isotopy could not recognise stored links

---
 src/pd_pack.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index 61ff1d5..19fb452 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -52,7 +52,8 @@
 
    At this point we'll round up to the nearest multiple of (8 bits per
    byte)*(sizeof(unsigned int) bytes) and store the whole enchilada as
-   an array of unsigned ints. The number of bits per index is
+   an array of unsigned ints, followed by one unsigned int for the tag
+   of each component. The number of bits per index is
    determined by the number of edges */
 
 unsigned int pd_indexbits(unsigned int ncrossings)
@@ -301,8 +302,10 @@ unsigned int *pd_pack(pd_code_t *pd,unsigned int *packedlength)
 
   if (pd->ncross == 0) { /* The crossing-free diagram has no bits to store. */
 
-    *packedlength = 1;
-    return calloc(1,sizeof(unsigned int));
+    *packedlength = 2;
+    unsigned int *unknotcode = calloc(2,sizeof(unsigned int));
+    unknotcode[1] = (unsigned int)(pd->comp[0].tag);
+    return unknotcode;
 
   }
 
@@ -351,7 +354,8 @@ unsigned int *pd_pack(pd_code_t *pd,unsigned int *packedlength)
   }
 
   unsigned int *packed = pd_packbitstring(intstring,pd->ncross*crossbits,packedlength);
-  (*packedlength)++;
+  unsigned int nbitints = *packedlength;
+  *packedlength += 1 + pd->ncomps;
   unsigned int *finalcode = calloc(*packedlength,sizeof(unsigned int));
 
   if (crtype == UNSIGNED_CROSSINGS) {
@@ -364,7 +368,8 @@ unsigned int *pd_pack(pd_code_t *pd,unsigned int *packedlength)
 
   }
 
-  for(k=1;k<*packedlength;k++) { finalcode[k] = packed[k-1]; }
+  for(k=0;k<nbitints;k++) { finalcode[1+k] = packed[k]; }
+  for(k=0;k<pd->ncomps;k++) { finalcode[1+nbitints+k] = (unsigned int)(pd->comp[k].tag); }
 
   free(packed); free(intstring);
   return finalcode;
@@ -395,7 +400,13 @@ pd_code_t *pd_unpack(unsigned int *bitform)
   pd_idx_t ncross;
   pd_signcross_t crtype;
 
-  if (bitform[0] == 0) { return pd_build_unknot(0); }
+  if (bitform[0] == 0) {
+
+    pd_code_t *unknot = pd_build_unknot(0);
+    unknot->comp[0].tag = (pd_tag_t)(bitform[1]);
+    return unknot;
+
+  }
   
   if ((int)(bitform[0]) > 0) {
 
@@ -442,6 +453,9 @@ pd_code_t *pd_unpack(unsigned int *bitform)
 
   }
 
+  unsigned int nbitints = (nbits + 8*sizeof(unsigned int) - 1)/(8*sizeof(unsigned int));
+  for(k=0;k<pd->ncomps;k++) { pd->comp[k].tag = (pd_tag_t)(bitform[1+nbitints+k]); }
+
   assert(pd_ok(pd));
   
   return pd;
-- 
2.43.0


From 4bd648c5e0d3d5750e4e00f4f5175bcb57062d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:13 +0000
Subject: [PATCH 028/110] fix: computing a HOMFLY polynomial made the process
 ignore SIGTERM ever after

---
 src/pllmpoly02.c | 4628 +++++++++++++++++++++++-----------------------
 1 file changed, 2313 insertions(+), 2315 deletions(-)

diff --git a/src/pllmpoly02.c b/src/pllmpoly02.c
index f8dab8b..7e0aa2e 100644
--- a/src/pllmpoly02.c
+++ b/src/pllmpoly02.c
@@ -1,2315 +1,2313 @@
-/*          FAST VERSION       */
-/* A load balanced calculation of the oriented polynomial  Ver 1.1f */
-/* Bruce Ewing and Kenneth C. Millett  (author: Ewing)    Feb 5, 01 */
-/* Department of Mathematics */
-/* University of California */
-/* Santa Barbara, CA 93106 */
-/* there is a hard limit of 255 crossings in this program */
-
-#include <config.h>
-
-#ifdef HAVE_SIGNAL_H
-#include <signal.h>
-#endif
-
-#ifdef HAVE_SYS_TYPES_H
-#include <sys/types.h>
-#endif
-
-#ifdef HAVE_SYS_TIMES_H
-#include <sys/times.h>
-#endif
-
-#include <stdio.h>
-#include <stdlib.h>
-
-#ifdef HAVE_UNISTD_H
-#include <unistd.h>
-#endif
-
-#ifdef HAVE_FCNTL_H
-#include <fcntl.h>
-#endif
-
-#include <string.h>
-#include <time.h>
-#include <assert.h>
-
-  /* values the USER needs to define!! */
-#define XCNT       250     /* maximum crossings in knot (at most 255) */
-#define XCNTSQ   62500     /* YOU MUST CALCULATE XCNT SQUARED! */
-#define XCSQTR  187500     /* YOU MUST CALCULATE XCNTSQ times THREE! */
-
-
-/* system values -- it's best if these are not touched */
-#define EOFCHR       0     /* integer value of my "end of file" character */
-#define MAXBIL   32767     /* positive value where overflow warning triggers */
-
-#define MAXPOLY  12000     /* Maximum # of characters for output poly */
-
-/* globals */
-
-typedef struct state_struct {
-
-  int readpos;
-  int writepos;
-
-  long plybuf[XCNTSQ], *poly[XCNT], notbeg, count[XCNT], b[XCNT+1];
-  unsigned char sign[XCNT], donlnk[XCNT+1], t[XCNT+2], crsbuf[XCNT+1][8];
-  unsigned char buf[XCSQTR], cbuf[10242], clist[XCNT+2], stc[XCNT*2];
-  short numcrs, numlps, poslnk, neglnk, lowx, restrt, gapsto[65];
-  short tt[XCNT+2], bstlst[XCNT], bilbuf[XCNTSQ], *bilion[XCNT], suplng;
-
-} lmpoly_state_t;
-
-/* Prototypes for later functions */
-
-void mypause(int sig);
-int  ntc(long i,char *buf,lmpoly_state_t *state);
-int  conchk(lmpoly_state_t *state);
-void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state);
-void squish(short sqush,lmpoly_state_t *state);
-void sqush2(short n,short g, lmpoly_state_t *state);
-void triple(short m,short i,unsigned char *p,lmpoly_state_t *state);
-void untwst(short l,short n,short i,short ex,lmpoly_state_t *state);
-void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state);
-int  tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state);
-void delpow(lmpoly_state_t *state);
-void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state);
-int  bust(short tobust,short xpow,short ypow,lmpoly_state_t *state);
-int  skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state);
-
-int strread(char *str,void *buffer,size_t size,lmpoly_state_t *state)
-
-/* Reads up to size characters from string, copying the results to buffer. */
-/* We keep a (global) count of our position in the string internally.      */
-/* Return the number of characters read, or 0 at the end of the string.    */
-/* We don't copy the terminating NULL from str. */
-
-{
-  int ctried,cread;
-
-  for(ctried=0,cread=0;ctried < size;ctried++) {
-
-    if (str[(state->readpos)] != 0) {
-
-      ((char *) buffer)[cread++] = str[(state->readpos)++];
-
-    }
-
-  }
-
-  return cread;
-}
-
-int strwrite(char *str,char *buffer,size_t size,lmpoly_state_t *state)
-
-/*   Writes size characters from buffer to str. Returns the number of  */
-/*   characters written. We keep a static counter of where we are in   */
-/*   the string. */
-
-{
-  int ctried,cwrote;
-
-  for(ctried=0,cwrote=0;ctried < size;ctried++) {
-
-    str[(state->writepos)++] = buffer[cwrote++];
-
-    if ((state->writepos) > MAXPOLY-1) {
-
-      printf("lmpoly: Output polynomial larger than %d characters.\n",
-	     MAXPOLY);
-
-      exit(1);
-
-    }
-
-  }
-
-  return cwrote;
-}
-
-
-char *plc_lmpoly(char *code, int timeout)
-/* This version takes a timeout in seconds. Returns NULL pointer if the computation takes too long. */
-{
- register short i, j, k, h, m, n, *sp;
- register unsigned char *p, *c;
- int in = 0, out, stats, len, len2, pause();
- long lngi, *lp1, *lp2, kstrt, cmpval;
- short g, xpow, ypow, dspair[4], maxcrs, chksiz, nopro, skflag;
- unsigned char nbuf[82], *q, *s;
- //struct tms hi;
- char *outpoly;
-
- clock_t start,end;
- double  cpu_time_used;
-
- lmpoly_state_t *state = calloc(1,sizeof(lmpoly_state_t));
- assert(state != NULL);
-
- start = clock();
-
- if (code == NULL) { free(state); return NULL; }
-
- /* It's possible that we'll be fed a code with only one crossing */
- /* This will crash the rest of the code, so we insert some stuff here */
- /* to catch this case and return [[0]]N for the unknot. --JHC */
-
- int newlinecount = 0;
- char *codeptr;
- for(codeptr = code;codeptr != NULL;) {
-
-   codeptr = strchr(codeptr,'\n');
-   if (codeptr != NULL) {
-     newlinecount++;
-     codeptr++;
-   }
-
-} /* Count newlines */
-
- if (newlinecount == 3) { /* Exactly one crossing */
-
-   outpoly = calloc(128,sizeof(char));
-   sprintf(outpoly,"[[1]]N ");
-   free(state);
-   return outpoly;
-
- }
-
-/* Now back to your regularly scheduled programming. */
-
- outpoly = calloc(MAXPOLY,sizeof(char)); // Space for a large polynomial
- (state->readpos) = 0;  // Reset the globals
- (state->writepos) = 0;
-
- maxcrs=XCNT;    /* maximum crossings in a knot, including all limits */
- chksiz= 50;     /* knot size trigger where (state->bilion) is checked, stats printed */
- *(state->sign)= 255;      /* do 3 tests on the machine to verify trick operation */
- i= (short) *(state->sign);
- if (i< (lngi=0)){
-  write (1,"unsigned char problem - can't calculate knot >127 crossings\n",60);
-  if (maxcrs>127) maxcrs=127;
- }
- kstrt= 0x01020304;
- p= (unsigned char *) &kstrt;
- c= (unsigned char *) &lngi;
- *(c++)= *(p++);
- *(c++)= *(p++);
- *(c++)= *(p++);
- *c= *p;
- if (lngi!= 0x01020304){
-  write (1,"long int pointer copy problem -- halt/restart won't work\n",57);
- }
- *nbuf= nbuf[1]= nbuf[2]= nbuf[3]= 0;
- (state->t)[0]=1;
- (state->t)[1]=2;
- (state->t)[2]=3;
- (state->t)[3]=4;
- lp1= (long *) (state->t);
- lp2= (long *) nbuf;
- *lp2= *lp1;
- if (*nbuf!=1 || nbuf[1]!=2 || nbuf[2]!=3 || nbuf[3]!=4){
-  write (1,"4 byte copy problem -- use PORTABLE PROGRAM version!\n",53);
-  exit (1);
- }
- if (sizeof(lngi)== ((state->suplng)=2)){
-  write(1,"halt/restart won't work, and watch for coefficient overflows\n",61);
-  cmpval= 10000;
-  chksiz= 20;
- }
- else cmpval= 1000000000;     /* how big a value fits in a poly memory slot? */
- if (sizeof(lngi)== 8) (state->suplng)= 1;
-
- // if (argc<2){
- // write (1,"usage:  lmpoly -rs knotfile [knotfile ...]\n",43);
- // exit (1);
- //}
-
- /* if ((out=open("lmknot.out",1))== -1){ */
-/*   if ((out=creat("lmknot.out",0644))== -1){ */
-/*    write (1,"fatal: cannot create output file 'lmknot.out'\n",46); */
-/*    exit (1); */
-/*   } */
-/*  } */
-/*  else lseek (out,(long) 0,2); */
-/*  close (out); */
-
- *(state->count)= (state->restrt)= i= j= kstrt= nopro= 0;
- stats= -1;
-
- /* This code appears to detect "restarts" and "stats", neither of which
-    we are currently implementing. */
-
- /* if (*argv[1]=='-'){
-  if (argc==2 && argv[1][1]=='r'){
-   (state->restrt)=1;
-   if (argv[1][2]=='s') stats= 0;
-  }
-  else if (argv[1][1]=='s'){
-   stats= 0;
-   ++argv;
-   --argc;
-  }
-  } */
-
-
- signal(SIGTERM,mypause); // Not sure what this does.
-
- lp1= state->plybuf;
- sp= (state->bilbuf);
- while (j<XCNT){
-  (state->poly)[j]= lp1;
-  (state->bilion)[j]= sp;
-  lp1+= 1+ 2* (XCNT- ++j);
-  sp+= 1+ 2* (XCNT-j);
- }
-NEWFIL:
-
- /* We comment out some "stats" code, since we won't display stats anyway. */
-
- /* if (stats>0){     // remove stats info for previous knot file
-  i= strlen(*argv);
-  c= (unsigned char *) *argv+i-1;
-  if (i>11) i=11;
-  while (i--!=0 && *c!='/') --c;
-  p=t;
-  while (*++c!=0) *(p++)= *c;
-  *(p++)= '.';
-  *(p++)= 'l';
-  *p=0;
-  close (stats);
-  unlink(t);
-  } */
- /* if (--argc==0) exit(0); */ /* This was the exit point for the program */
-
- /* We also comment out some "restart" code since we aren't restarting */
-
- /*if ((state->restrt)!=0){           // if I am restarting an old calculation
-  if ((in=open("lmpoly.(state->restrt)",0))== -1){
-   write (1,"couldn't find restart file\n",27);
-   exit (0);
-  }
-  read (in,nbuf,82);
-  read (in,(state->cbuf),12);
-  *argv= (char *) (state->cbuf);
-  read (in,(state->buf),7);
-  (state->numcrs)= *(state->buf);
-  xpow= (short) (state->buf)[2];
-  ypow= (short) (state->buf)[1];
-  (state->numlps)= (short) (state->buf)[3];
-  (state->poslnk)= (short) (state->buf)[4];
-  (state->neglnk)= (short) (state->buf)[5];
-  if (((state->buf)[6]&1) !=0) ypow= -ypow;
-  if (((state->buf)[6]&2) !=0) xpow|= 512;
-  read (in,*(state->crsbuf),(state->numcrs)*8);
-  i= 0;
-  while (i!=(state->numcrs)){
-   (state->sign)[i]= (state->crsbuf)[i][1]>>4;
-   (state->crsbuf)[i++][1]&=6;
-  }
-  p= (unsigned char *) &(state->lowx);
-  read (in,p,2);
-  p= (unsigned char *) &kstrt;
-  read (in,p,4);
-  p= (unsigned char *) &notbeg;
-  read (in,p,4);
-  read (in,(state->buf), (int) notbeg);
-  read (in,(char *) count,XCNT*4);
-  read (in,(char *) state->plybuf,4*XCNT*XCNT);
-  read (in,(char *) (state->bilbuf),2*XCNT*XCNT);
-  close (in);
-  in=0;
-  s= (state->cbuf)+14;
-  *s= EOFCHR;
- }
- else if ((in=open(*++argv,0))==-1){
-  write (1,"cannot open ",12);
-  write (1,*argv,strlen(*argv));
-  write (1,", skipping\n",11);
-  goto NEWFIL;
- }
- if (stats>=0){
-  i= strlen(*argv);
-  q= (unsigned char *) *argv+i-1;
-  if (i>11) i=11;
-  while (i--!=0 && *p!='/') --q;
-  p=t;
-  while (*++q!=0) *(p++)= *q;
-  *(p++)= '.';
-  *(p++)= 'l';
-  *p=0;
-  if ((stats=creat(t,0644)) <0) stats=0;
- }
- if ((state->restrt)!=0){
-  if (stats>0){
-   write (stats,nbuf,strlen(nbuf));
-   write (stats,"\n",1);
-  }
-  (state->restrt)=0;
-  goto STEP1; // restart file has set up all NEWNOT data already
- }
- */
-
- c = (state->cbuf);
-
- /* This code fragment copies the input file into a character buffer,
-    appending the EOF character to the end of the string. Instead, we
-    copy our input "code" buffer into the (state->cbuf) array.
-
-    Original code:
-
-    c[read(in,c,10240)]= EOFCHR;
-
- */
-
- int   mypos;
- for(mypos = 0;code[mypos] != 0 && mypos < 10240-1;mypos++) {
-   c[mypos] = code[mypos];
- }
- c[mypos]= EOFCHR;
-
- while (*c=='\n') ++c;
-
- s=c;
-NEWNOT:
- i= XCNT-1;
- while (i!=0 && (state->count)[i]==0) --i;
- if (*(state->count)!= ((state->numcrs)=0)){
-  if (stats>=0){
-   if ((out=open("lmknot.stats",1))== -1) out=creat("lmknot.stats",0644);
-   else lseek (out,(long) 0,2);
-  }
-/*   if (stats>=0 && out>0){ */
-/*    write (out,nbuf,strlen(nbuf)); */
-/*    write (out,"\n",1);     /\* write out statistics for knot just completed *\/ */
-/*    lngi=0; */
-/*    while (i!=0){ */
-/*     write (out,t,ntc((long)(i+1),t,state)); */
-/*     write (out,"     ",5); */
-/*     write (out,t,ntc(count[i],t)+1,state); */
-/*     lngi+= count[i--]; */
-/*    } */
-/*    write (out,"\ntotal: ",8); */
-/*    write (out,t,ntc(lngi,t,state)+1); */
-/*    write (out,"run: ",5); */
-/*    times(&hi); */
-/*    lngi= ((hi.tms_utime-kstrt)*5)/3; */
-/*    write (out,t,ntc(lngi/100,t,state)); */
-/*    write (out,".",1); */
-/*    len= ntc(lngi%100,t,state); */
-/*    write (out,"0",2-len); */
-/*    write (out,t,len); */
-/*    write (out," s\n\n",4); */
-/*    kstrt= hi.tms_utime; */
-/*    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40); */
-/*    close (out); */
-/*   } */
-  k= XCNT;
-  i=0;
-  while (k!=0 && i==0){
-   i= 2+ 2*(XCNT-k);
-   lp1= (state->poly)[--k];
-   sp= (state->bilion)[k];
-   while (--i!=0 && *lp1==0 && *(sp++)==0) ++lp1;
-  }
-  if (i!=0){
-
-    /* Original code:
-
-       if ((out= open("lmknot.out",1))<0) out=open("temp.out",1);
-
-       lseek (out,(long) 0,2);
-       write (out,nbuf,strlen(nbuf));
-       write (out,"\n",1); */
-
-    /* write out polynomial for knot just completed */
-
-    /* These lines would copy the first line of the crossing code into
-       the output. We don't need this, so we forget it */
-
-    /*strwrite(outpoly,(char *)(nbuf),strlen((char *)(nbuf)));
-      strwrite(outpoly," ",1); */
-
-    /*
-    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40);
-    if (count[1]!=0) write (out,"coefficient overflow error: output BAD\n",39);
-    */
-
-    if ((state->count)[2]<0) {
-
-      printf("lmpoly: knot became inconsistent.\n");
-      exit(1);
-
-    }
-
-    if ((state->count)[1]!=0) {
-
-      printf("lmpoly: coefficient overflow error.\n");
-      exit(1);
-
-    }
-
-    len=m= -1;
-    while (m++<k || (state->lowx) <= 0){
-        if ((state->lowx)== (i=0)) strwrite (outpoly,"[",1,state);
-        n= XCNT-m-1;
-        j= n*2;
-        while (j!=n && (state->poly)[m][j]==0 && (state->bilion)[m][j]==0) --j;
-        while (i!=n && (state->poly)[m][i]==0 && (state->bilion)[m][i]==0) ++i;
-        if (len==0 || (state->lowx)>=0 || i!=j || (state->poly)[m][i]!=0 || (state->bilion)[m][i]!=0){
-            while (i<=j){
-                if (i==n) strwrite (outpoly,"[",1,state);
-                h=0;
-                lngi= (state->poly)[m][i];
-                if (lngi>=cmpval || lngi<= -cmpval){
-                    h= lngi/cmpval;
-                    lngi-= h* cmpval;
-                }
-                h+= (state->bilion)[m][i];
-                if (h*lngi <0){   /* (state->bilion) and poly are different signs */
-                    if (h<0){
-                        lngi-= cmpval;
-                        ++h;
-                    }
-                    else {
-                        lngi+= cmpval;
-                        --h;
-                    }
-                }
-                if (h!=0){
-                    if (lngi<0) lngi= -lngi;
-                    strwrite (outpoly,(char *)(state->t),ntc((long) h,(char *)(state->t),state),state);
-                    len= ntc(lngi,(char *)(state->t),state);
-                    if (cmpval==10000) len2= 4-len;
-                    else len2= 9-len;
-                    strwrite (outpoly,"00000000",len2,state);
-                    strwrite (outpoly,(char *)(state->t),len,state);
-                }
-                else strwrite (outpoly,(char *)(state->t),ntc(lngi,(char *)(state->t),state),state);
-                if (i++ ==n) strwrite (outpoly,"]",1,state);
-                if (i<=j) strwrite (outpoly," ",1,state);
-            }
-            if ((state->lowx)== (len=0)) strwrite (outpoly,"]",1,state);
-            strwrite (outpoly,"N",1,state);
-        }
-        ++(state->lowx);
-    }
-  }
-  strwrite (outpoly," ",1,state);
-  /* close(out); */ /* We are done writing the polynomial, so return */
-  free(state);
-  return outpoly;
- }
- i= XCNT;
- while (i!=0) (state->count)[--i]=0; /* Erase the (state->count) buffer */
- c=s;
- *nbuf=0;                   /* Erase the nbuf string? */
- if (*c!='1' || (*(c+1)!='+' && *(c+1)!='-')){
-  /* Copy first line of 's' into nbuf */
-  p= nbuf;
-  while (*c!='\n' && *c!= EOFCHR) *(p++)= *(c++);
-  *p= 0;
-  /* if (*c != EOFCHR && stats>0){ */
-/*    lseek (stats,(long) 0,0); */
-/*    write (stats,nbuf,strlen(nbuf)); */
-/*    write (stats,"\n",1); */
-/*   } */
- }
- if (*c=='\n') ++c;
- p= *(state->crsbuf);
- while (*c!='\n' && *c!=EOFCHR){
-  if ((state->numcrs)==maxcrs){
-    //write (1,"too many crossings in knot\n",27);
-    printf("lmpoly: too many crossings in knot\n");
-    free(outpoly);
-    free(state);
-    return NULL;
-  }
-  while (*c>='0' && *c<='9') ++c;
-  if (*c=='+') (state->sign)[(state->numcrs)]=6;      /* (state->sign)[] says what crossings are + or - */
-  else if (*c=='-') (state->sign)[(state->numcrs)]=2;
-  else if (*c==EOFCHR) --c;
-  else {
-    //write (1,"the format of this knot is unreadable, skipping file\n",53);
-    //close (in);
-    //goto NEWFIL;
-    printf("lmpoly: Could not parse input string.\n");
-    free(outpoly);
-    free(state);
-    return NULL;
-  }
-  ++c;
-  j=4;
-  while (j--!= (i=0) && *c!=EOFCHR){
-   while (*c>='0' && *c<='9'){
-    i*=10;
-    i+= *(c++)-0x30;
-   }
-   if (i==0){
-     //write (1,"the format of this knot is unreadable, skipping file\n",53);
-     //close (in);
-     //goto NEWFIL;
-     printf("lmpoly: Could not parse input string.\n");
-     free(outpoly);
-     free(state);
-     return NULL;
-   }
-   *(p++)= i-1;
-   if (*c!=EOFCHR){
-    if (*c<'a' || *c>'d'){
-      //write (1,"the format of this knot is unreadable, skipping file\n",53);
-      //close (in);
-      //goto NEWFIL;
-      printf("lmpoly: Could not parse input string.\n");
-      free(outpoly);
-      free(state);
-      return NULL;
-    }
-    *(p++)= (*(c++)-'a')*2;
-   }
-  }
-  ++(state->numcrs);
-  if (*c=='\n') ++c;
- }
- if (*c==EOFCHR){
-  c=(state->cbuf);
-  len=10240;
-  while (*s!=EOFCHR){
-   *(c++)= *(s++);
-   --len;
-  }
-  if (in!=0 && (i=read(in,c,len))!=0){
-   c[i]=EOFCHR;
-   c=(state->cbuf);
-   while (*c=='\n') ++c;
-   s=c;
-   goto NEWNOT;
-  }
-  *c= EOFCHR;
-  if (in!=0){
-   close (in);
-   in=0;
-  }
-  else goto NEWFIL;
-  if ((state->numcrs)<2) goto NEWFIL;
- }
- while (*c=='\n') ++c;
- s=c;
- lp1= *(state->poly);
- sp= *(state->bilion);
- lngi= XCNT*XCNT;
- while (--lngi!=0) *(lp1++)= *(sp++)= 0;
- (state->notbeg)=(state->numlps)=(state->poslnk)=(state->neglnk)= xpow= ypow= 0;
- if (conchk(state)!=0) exit(0);
- *(state->count)=1;
-STEP1:
- skflag=0;
-RESTRT:
- if ((state->restrt)!=0){
-   /* We don't include the restart functionality for now. */
-
-  /* if ((out=creat("lmpoly.restrt",0644))!= -1){ */
-/*    write (out,nbuf,82); */
-/*    i= strlen(*argv)-11; */
-/*    if (i<0) i=0; */
-/*    write (out,*argv+i,12); */
-/*    *(state->cbuf)= (state->numcrs); */
-/*    if (ypow<0){ */
-/*     ypow= -ypow; */
-/*     (state->cbuf)[6]=1; */
-/*    } */
-/*    else (state->cbuf)[6]=0; */
-/*    if ((xpow&512) !=0) (state->cbuf)[6]|= 2; */
-/*    (state->cbuf)[1]= ypow; */
-/*    (state->cbuf)[2]= xpow; */
-/*    (state->cbuf)[3]= (state->numlps); */
-/*    (state->cbuf)[4]= (state->poslnk); */
-/*    (state->cbuf)[5]= (state->neglnk); */
-/*    write (out,(state->cbuf),7); */
-/*    i= -1; */
-/*    while (++i!=(state->numcrs)) (state->crsbuf)[i][1]|= (state->sign)[i]<<4; */
-/*    write (out,*(state->crsbuf),(state->numcrs)*8); */
-/*    p= (un(state->sign)ed char *) &(state->lowx); */
-/*    write (out,p,2); */
-/*    times(&hi); */
-/*    kstrt-= hi.tms_utime; */
-/*    p= (un(state->sign)ed char *) &kstrt; */
-/*    write (out,p,4); */
-/*    p= (unsigned char *) &notbeg; */
-/*    write (out,p,4); */
-/*    write (out,buf, (int) notbeg); */
-/*    write (out,(char *) count,XCNT*4); */
-/*    write (out,(char *) state->plybufn,4*XCNT*XCNT); */
-/*    write (out,(char *) (state->bilbuf),2*XCNT*XCNT); */
-/*    close (out); */
-/*    close (stats); */
-/*    exit(0); */
-/*   } */
-   /*write (1,"couldn't create restart file 'lmpoly.restrt'\n",45);*/
-
-   printf("lmpoly: Warning! This version does not save"
-	  " restart info on quit.\n"
-	  "        Terminating run now.\n\n");
-   exit(0);
-   /*restrt=0; */
- }
-/* FIRST -- remove figure 8 loops, 2 cases  "#-#d#c#b#a"  "#+#b#a#d#c" */
-/* SECOND -- remove monogons (must recheck previous crossings) */
-/* 4 cases  "#+#b#a????"  "#+????#d#c"  "#-#d????#a"  "#-??#c#b??" */
-/* THIRD -- remove bigons -- make sure loops don't get forgotten. */
-/* 2 cases "k?mcmb???? m???kbka??"  "k?mc????md  m?????kakd" */
-/* bigon yanker MUST be completely thorough or loops can get lost later */
- *dspair=g= i= (state->numcrs);
- c=p= (state->crsbuf)[i];
- k=2;
- while (i--!=0){  /* loop through all crossings */
-  p-=8;
-  if (*p==i){
-   if (p[4]==i) ++(state->numlps);
-   else mrecon (p+4,p+(state->sign)[i],state);
-   squish (i,state);
-   goto STEP1;
-  }
-  else if (p[4]==i){
-    mrecon (p,p+((state->sign)[i]^4),state);
-    squish (i,state);
-   goto STEP1;
-  }
-   /* this bigon test checks that ka points to some mc, */
-    /* and kd to md, or kb to mb */
-  if (p[1]==4 && ((*p==p[6] && p[7]==6) || (*p==p[2] && p[3]==2))){
-   if ((j= *p) ==p[2]) k=6;
-   c= (state->crsbuf)[j];
-   if (p[4]==j) ++(state->numlps);
-   if (p[2]==p[6]) ++(state->numlps);
-   mrecon (p+4,c,state);
-   mrecon (p+k,c+k,state);
-   sqush2 (i,j,state);
-   goto STEP1;
-  }
-  (state->bstlst)[i]= 0;
- }
- if ((state->numcrs)<6) g=0;
-/* find very good and ok triples */
- while (g--!= (lngi=0)){
-  c-=8;
-  p= (state->crsbuf)[*c]+ ((c[1]^2)&2);
-  q= (state->crsbuf)[c[4]]+ ((c[5]^2)&2);
-  if ((i= c[2]) != (j= c[6]) && *c!=c[4]){
-   if ((m= *q) == (n= q[4])) m=n= -1;
-   if ((h= *p) == (k= p[4])) h=k= -1;
-   if ((h==i && k==j) || (j==h && k==i)) lngi=1;
-   if ((m==i && n==j) || (m==j && n==i)) lngi|=2;
-   if ((n==j || m==j) && (k==j || h==j)) lngi|=4;
-   if ((m==i || n==i) && (h==i || k==i)) lngi|=8;
-  }
-  else {
-   h=0;       /* there is a ring through this crossing */
-   if (i!=j){
-    i= *c;   /* on over branch */
-    h=2;
-   }
-   else if (*c==c[4]){
-    ++(state->numlps); /* knot's a distant union with a 2-link */
-    if ((state->sign)[g]==2) ++(state->neglnk);
-    else ++(state->poslnk);
-    sqush2 (g,i,state);
-    goto STEP1;
-   }
-   j=h;
-   c+=h;
-   if ((state->sign)[g]!=(state->sign)[i]) ++(state->numlps); /* loose ring */
-   else {
-    if ((state->sign)[g]==2) ++(state->neglnk);
-    else ++(state->poslnk);
-    j= h^2;
-   }
-   p= (state->crsbuf)[i]+j;  /* only do one mrecon unless I HAVE to do 2 */
-   q= c+4;
-   if (*c==i){
-    if ((c[1]&4) ==0) c= p+4;
-    else c=p;
-   }
-   else if (*q==i){
-    if ((q[1]&4) ==0) q= p+4;
-    else q=p;
-   }
-   else mrecon (p,p+4,state);
-   mrecon (c,q,state);
-   sqush2 (g,i,state);
-   goto STEP1;
-  }
-  if (lngi!=0){
-   k= lngi;
-   *dspair=1;
-   if ((k&3)!=0){
-    if ((c[3]&c[7]&2)!=0){
-      triple((short) ((k&2)<<1),g,c,state);
-     goto STEP1;
-    }
-    if (((c[3]^c[7])&2)!=0){
-     if ((c[((k&2)<<1)|1]&2)==0){
-      if ((state->sign)[c[(k&2)<<1]]!=(state->sign)[g]) (state->bstlst)[i]= (state->bstlst)[j]= -19;
-      else (state->bstlst)[i]= (state->bstlst)[j]= 8;
-     }
-     else {
-      n=8;
-      if ((state->sign)[c[(k&2)<<1]]==(state->sign)[g]) n= -8;
-      sp= (state->bstlst)+i;
-      if ((c[3]&2)!=0) sp= (state->bstlst)+j;
-      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
-     }
-    }
-    else {
-     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
-     else (state->bstlst)[g]-= 8;
-    }
-   }
-   if (k>3){
-    if (((c[1]|c[5])&2)==0){
-      triple((short) ((k&4)|2),g,c,state);
-     goto STEP1;
-    }
-    if (((c[1]^c[5])&2)!=0){
-     if ((c[(k&4)|3]&2)!=0){
-      if ((state->sign)[c[(k&4)|2]]!=(state->sign)[g]) (state->bstlst)[*c]= (state->bstlst)[c[4]]= -19;
-      else (state->bstlst)[*c]= (state->bstlst)[c[4]]= 8;
-     }
-     else {
-      n=8;
-      if ((state->sign)[c[(k&4)|2]]==(state->sign)[g]) n= -8;
-      sp= (state->bstlst) + c[4];
-      if ((c[1]&2)!=0) sp= (state->bstlst)+ *c;
-      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
-     }
-    }
-    else {
-     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
-     else (state->bstlst)[g]-= 8;
-    }
-   }
-  }
- }
- /* circuit remover */
- j= (state->numcrs)-1;
- if (j<3) j= -1;
- else if (j<11){    /* <12 will blow up */
-  p= *(state->crsbuf)+1;
-  i=(state->numcrs);
-  while (i--!=0 && *p!=4) p+=8; /* only non-alternating (a to c) knots */
-  if (i< (n=0)) j= -1;
-  else p= (state->crsbuf)[j]+5;   /* remove twists */
-  while (j>=0){
-   n^=4;
-   k= *(p--)^4;
-   if ((k&2) == 0){
-    c= (state->crsbuf)[*p]+k;
-    i= *c;
-    k= c[1]^4;
-    if ((k&2) != 0 && (state->crsbuf)[i][k]==j){
-      untwst ((short) *p,i,j,n,state);
-      squish (j,state);
-     goto STEP1;
-    }
-   }
-   if (n==0) --j;
-   p-=3;
-  }
- }
- g= (state->donlnk)[XCNT]= m= 0;
- while ((n=j) >= (*(state->tt)=(state->tt)[2]=h= 0)){
-  k=g;
-  do {
-   p= (state->crsbuf)[j]+k;
-   j= *p;
-   k= p[1]^4;
-   i= h;
-   p=(state->clist);
-   while (i--!=0 && *(p++) != j);
-   if (i>=0){
-    j= n;              /* circuit crosses itself */
-    goto NXTCIR; /* skip circuit, wait for a sub-piece that doesn't */
-   }
-   else {
-    ++(state->tt)[k&2];
-    *p= j;
-    (state->t)[h++]= (k&2)^2;
-   }
-  } while (n!=j);
-  if (k != g) --(state->tt)[k&2];
-  else k= -1;
-  if (*(state->tt)==0 || (state->tt)[2]==0){
-    rmcir(h,j,k,state->t,0,state);
-   goto STEP1;
-  }
-  if (tstcir(h,(state->bstlst),dspair,&skflag,state) !=0) goto RESTRT;
-  if (h==3){
-   (state->stc)[m++]=j; /* store vertex of 3 crossing circuit for (state->bstlst) later */
-   (state->stc)[m++]=g;
-   (state->stc)[m++]=k^4;
-  }
-NXTCIR:
-  if (g==0) g= (state->sign)[j];
-  else {
-   --j;
-   g=0;
-  }
- }
-/* if knot is tiny, store polynomial coefficients and restart a stored knot */
- if ((state->numcrs)<6){
-  lngi= 1;
-  if ((state->numcrs)==0) --(state->numlps);
-  delpow(state);
-  if ((xpow&512)!=0){
-   lngi= -1;
-   xpow&=511;
-  }
-  if ((state->numcrs)==4){
-   c= *(state->crsbuf);
-   p= c+4;
-   if (*p==*c || c[2]==p[2]){
-    g= -3;
-    if (*p==p[2] && *c==c[2]) g= -4;
-   }
-   else {
-    g= 0;  /* 0 is flag for knot */
-    i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
-    if (i!=16) g=2;     /* flag for 2 links   */
-   }
-  }
-  else if ((state->numcrs)==5){
-   n=10;
-   i=j= 0; /* step through knot, if don't get to end, it's a link */
-   do {
-    p= (state->crsbuf)[i]+j;
-    i= *p;
-    j= p[1]^4;
-    --n;
-   } while (i!=0 || j!=0);
-   if (n>0){
-    i=h= 0; /* 5 crossing 2 link  or twisted 3 link  or tref and 2 links */
-    g=m= 1;      /* or tref + link */
-    k= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
-    if (k>10 && k<30){
-     if (k>20){
-      while ((state->sign)[i]==6) ++i;
-     }
-     else {
-      while ((state->sign)[i]==2) ++i;
-     }
-     if (k==14 || k==26) goto FOURX;
-     c= (state->crsbuf)[i];
-     p= c+4;
-     if (*p==*c || p[2]==c[2]){
-      if (*p==p[2] && *c==c[2]) g=3;
-      else {
-       h=4;
-       if ((state->sign)[i]==6) m= -1;
-      }
-     }
-     else {
-      g=2;
-      j=0;
-      if ((state->sign)[*c]!=(state->sign)[i]) j=4;
-      k= c[j];
-      if ((state->crsbuf)[k][j]!=i){
-       if ((state->sign)[i]==6) m= -1;
-      }
-      else if ((state->sign)[i]==2) m= -1;
-     }
-    }
-    if (g==1){
-     if (h==0 && (state->sign)[i]==2) m= -1;
-     i=j=k= 5;
-     c= state->t;
-     while (j!=0) c[--j]=0;
-     while (k--!=0){
-      j= (state->sign)[k]; /* trefs + circles have fake bigons at all crossings */
-      p= (state->crsbuf)[k]; /* so find all fake bigons */
-      if (p[1]==(j^4) && (*p==p[2] || *p==p[6])) c[k]=c[*p]= 1;
-      if (p[5]==j && p[4]==p[j]) c[k]=c[p[4]]= 1;
-     }
-     while (--i>=0 && c[i]!=0);
-     if (i>=0){
-FOURX: /* found twisted 3 link -- "squish" twist before making polynomial */
-      while (++i!=6) (state->sign)[i-1]= (state->sign)[i];
-      (state->numcrs)=4;
-      g= -3;  /* flag for 4 crossing 3 links */
-     }
-     else {
-      p= *(state->crsbuf);
-      if (n==4 || (n==8 && *p==p[4] && p[2]==p[6])) g=3;
-     }
-    }
-   }
-   else g= -1; /* it's a knot! */
-  }
-  i= (*(state->sign))/2 -2;
-  k= xpow;
-  n=ypow;
-  p= *(state->crsbuf);
-  if ((state->numcrs)==5){
-   if (g<0){ /* knots */
-    if (i>0){
-     if (*p==p[6] && p[2]==p[4] && p[10]==p[12]) g= -2;
-    }
-    else if (*p==p[2] && p[4]==p[6] && p[8]==p[10]) g= -2;
-    if (g== -1){ /* knot five-two */
-      addin(lngi,(short)(n-i*6),k,0,0,state);      /* the flags at the end of addin  */
-      addin(lngi,(short)(n-i*4),k,-1,2,state);     /* let you do two addins at once, */
-      addin((long)-lngi,(short)(n-i*2),k,-1,2,state);    /* for addins with equal ypows.   */
-    }
-    else { /* knot five-one */
-     k+=2;
-     addin((long)(-4*lngi),(short)(n-i*4),k,0,0,state);
-     addin((long)-lngi,(short)(n-i*6),k,-2,-2,state);
-     addin(lngi,(short)(n-i*4),(short)(k+2),3,-4,state);
-    }
-   }
-   else { /* links */
-    if (g==1){ /* trefoil + circle */
-     if (h!=0){
-       addin(lngi,(short)(n-m*3),++k,-1,-2,state);
-       addin((long)(3*lngi),(short)(n-m),k,-1,-2,state);
-       addin(lngi,(short)(n+m),k,-2,-2,state);
-       addin((long)-lngi,(short)(n-m),(short)(k+2),0,0,state);
-     }
-     else {
-       addin((long)-lngi,(short)(n-m*7),--k,0,0,state);
-       addin((long)(-3*lngi),(short)(n-m*5),k,0,0,state);
-      k+=2;
-      addin((long)(3*lngi),(short)(n-m*3),k,0,0,state);
-      addin((long)(2*lngi),(short)(n-m*5),k,0,0,state);
-      addin((long)-lngi,(short)(n-m*3),(short)(k+2),2,-4,state);
-     }
-    }
-    else if (g==2){ /* 2 component link five-one */
-      addin((long)-lngi,(short)(n+m),--k,-2,2,state);
-      addin((long)-lngi,(short)(n-m),k,-1,2,state);
-      addin(lngi,(short)(n+m*3),(short)(k+2),0,0,state);
-      addin((long)-lngi,(short)(n+m),(short)(k+4),0,0,state);
-    }
-    else { /* trefoil and circle + circle */
-     i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
-     m=1;
-     if (i<20){
-      m= -1;
-      i= 40-i;
-     }
-     j= k-2;
-     if (i!=30){
-       addin(lngi,(short)(n-m*4),j,-1,2,state);
-       addin((long)(4*lngi),(short)(n-m*2),j,-1,2,state);
-       addin((long)(5*lngi),n,j,0,0,state);
-       addin((long)-lngi,(short)(n+m*2),k,-2,-2,state);
-      k+=2;
-      addin(lngi,n,k,-4,-2,state);
-      addin(lngi,(short)(n-m*2),k,0,0,state);
-     }
-     else {
-       addin(lngi,(short)(n-m*8),j,0,0,state);
-       addin((long)(5*lngi),(short)(n-m*4),j,0,0,state);
-       addin((long)(2*lngi),(short)(n-m*2),j,0,0,state);
-       addin((long)(-2*lngi),(short)(n-m*6),k,-2,-2,state);
-      k+=2;
-      addin(lngi,(short)(n-m*4),k,-5,-2,state);
-      addin(lngi,(short)(n-m*2),k,-3,-2,state);
-     }
-    }
-   }
-  }
-  else if ((state->numcrs)==4){
-   if (g==0){ /* knot 4-1 */
-     addin((long)-lngi,(short)(n-2),k,0,0,state);
-     addin((long)-lngi,n,k,-1,2,state);
-     addin((long)-lngi,(short)(n+2),k,0,0,state);
-   }
-   else if (g>0){
-    i=1;
-    if (*(state->crsbuf)[*p]==0){
-     if (*(state->sign)==6) i= -1; /* 2 link 4^2-1 */
-     addin((long)-lngi,(short)(n+i*3),--k,-1,2,state);
-     addin((long)-lngi,(short)(n+i*5),k,0,0,state);
-     addin((long)-lngi,(short)(n+i),(short)(k+2),0,0,state);
-    }
-    else {
-     if (*(state->sign)==2) i= -1;
-     addin((long)-lngi,(short)(n-i*5),--k,-1,2,state);
-     addin((long)-lngi,(short)(n-i*3),k,-3,2,state);
-     addin((long)-lngi,(short)(n-i*3),(short)(k+4),0,0,state);
-    }
-   }
-   else if (g== -3){ /* 3 link */
-    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
-    i= 8- j/2;
-    if (i==0){
-      addin((long)-lngi,(short)(n-2),k,-1,-2,state);
-      addin((long)(-2*lngi),n,k,-1,-2,state);
-      addin((long)-lngi,(short)(n+2),k,-1,-2,state);
-      addin(lngi,n,(short)(k+2),0,0,state);
-    }
-    else {
-     j= k-2;
-     addin(lngi,(short)(n-2+i),j,0,0,state);
-     addin((long)(2*lngi),(short)(n+i),j,-1,2,state);
-     addin(lngi,(short)(n+2+i),j,0,0,state);
-     addin(lngi,(short)(n+i/2),(short)(k+2),-2,-2,state);
-    }
-   }
-   else { /* circle + circle  and  circle + circle */
-    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
-    i= 8- j/2;
-    if (i==0){
-      addin(lngi,(short)(n-3),--k,-1,-2,state);
-      addin((long)(3*lngi),(short)(n-1),k,-1,-2,state);
-      addin((long)(3*lngi),(short)(n+1),k,-1,-2,state);
-      addin(lngi,(short)(n+3),k,-1,-2,state);
-     k+=2;
-     addin((long)-lngi,(short)(n-1),k,0,0,state);
-     addin((long)-lngi,(short)(n+1),k,0,0,state);
-    }
-    else {
-     k-=3;
-     addin((long)-lngi,(short)(n-3+i),k,0,0,state);
-     addin((long)(-3*lngi),(short)(n-1+i),k,0,0,state);
-     addin((long)(-3*lngi),(short)(n+1+i),k,0,0,state);
-     addin((long)-lngi,(short)(n+3+i),k,0,0,state);
-     k+=2;
-     addin((long)(2*lngi),(short)(n-2+(i*3)/4),k,0,0,state);
-     addin((long)(4*lngi),(short)(n+(i*3)/4),k,0,0,state);
-     addin((long)(2*lngi),(short)(n+2+(i*3)/4),k,0,0,state);
-     k+=2;
-     addin((long)-lngi,(short)(n-1+i/2),k,0,0,state);
-     addin((long)-lngi,(short)(n+1+i/2),k,0,0,state);
-    }
-   }
-  }
-  else if ((state->numcrs)==3){
-    addin((long)-lngi,(short)(n-i*4),k,0,0,state);
-    addin(lngi,(short)(n-i*2),(short)(k+2),-2,-2,state);
-  }
-  else if ((state->numcrs)!=0){
-    addin(lngi,(short)(n-i),--k,-1,2,state);
-    addin(lngi,(short)(n-i*3),k,0,0,state);
-  }
-  else addin(lngi,n,k,0,0,state);
-  if ((state->notbeg)!=0){
-   (state->numcrs)= (state->buf)[(state->notbeg)-1];
-   (state->numlps)= (state->buf)[(state->notbeg)-4];
-   (state->poslnk)= (state->buf)[(state->notbeg)-5];
-   (state->neglnk)= (state->buf)[(state->notbeg)-6];
-   xpow= (state->buf)[(state->notbeg)-3];
-   ypow= (state->buf)[(state->notbeg)-2];
-   if ((state->buf)[(state->notbeg)-7]!=0) ypow= -ypow;
-   if ((state->buf)[(state->notbeg)-8]!=0) xpow|= 512;
-   (state->notbeg)-= 8+ (state->numcrs)*8;
-   i=0;
-   p= *(state->crsbuf);
-   c= (state->buf)+(state->notbeg);
-   while (i!=(state->numcrs)){
-    j=4;
-    while (j--!=0){
-     *(p++)= *(c++);
-     *(p++)= *(c++)&6;
-    }
-    (state->sign)[i++]= (*(c-7))>>4;
-   }
-   if ((state->numcrs)>chksiz){
-    lp1= *(state->poly);
-    sp= *(state->bilion);
-    lngi= XCNT*XCNT;
-    while (lngi--!=0){
-     if (*lp1> cmpval){
-      if ((*sp)++ == MAXBIL) (state->count)[1]=1;
-      *lp1-= cmpval;
-     }
-     else if (*lp1< -cmpval){
-      if ((*sp)-- == -MAXBIL -1) (state->count)[1]=1;
-      *lp1+= cmpval;
-     }
-     ++lp1;
-     ++sp;
-    }
-    /* if (stats>0){ */
-/*      lseek (stats,(long)(strlen(nbuf)+1),0); */
-/*      lngi=0; */
-/*      i= XCNT-1; */
-/*      while (count[i]==0) --i; */
-/*      while (i!=0){ */
-/*       write (stats,t,ntc((long)(i+1),t),state); */
-/*       write (stats,"     ",5); */
-/*       write (stats,t,ntc(count[i],t)+1,state); */
-/*       lngi+= count[i--]; */
-/*      } */
-/*      write (stats,"\ntotal: ",8); */
-/*      write (stats,t,ntc(lngi,t,state)+1); */
-/*      write (stats,"\nbiggest stacked knots:\n",24); */
-/*      i=12; */
-/*      sp= (state->bstlst); */
-/*      while (i--!=0) sp[i]=0; */
-/*      lngi=notbeg-1; */
-/*      while (lngi>0){ */
-/*       k= (state->buf)[lngi]; */
-/*       sp[++i]= k; */
-/*       lngi-= k*8 + 8; */
-/*       if (i==10) i= -1; */
-/*      } */
-/*      k= 0; */
-/*      while (*sp!=0){ */
-/*       j= ntc((long) *(sp++),t,state); */
-/*       k+=j+1; */
-/*       write (stats,t,j); */
-/*       write (stats," ",1); */
-/*      } */
-/*      write (stats,"                                            ",44-k); */
-/*      write (stats,"\n",1); */
-/*     } */
-   }
-  }
-  else (state->numcrs)=0;
- }
- else {
-/* locate fake bigons, 0 branch bigons, and 3 cross circuits for (state->bstlst) */
-  k= (state->numcrs);
-  p= (state->crsbuf)[k]; /* only set k, other crossings will be set in their loops   */
-  c= (state->sign)+k;    /* If a tangle is added to the knot with twists, I can find */
-  while (k--!=0){ /* it sometimes and remove the twists! */
-   n= (state->bstlst)[k];
-   p-=8;
-   j= *--c;
-   i= *p;
-   g= p[4];
-   if (g==p[j]){   /* good fake bigon behind me */
-    if (p[5]!=j){
-     c= (state->crsbuf)[g];  /* wrong! twisted tangle ahead! remove twists! */
-     mrecon (p+(j^4),c+ (p[j+1]^4),state);
-     mrecon (p,c+ (p[5]^4),state);
-     sqush2 (k,g,state);
-     goto STEP1;
-    }
-    if (n>0) n= -4-n;
-    else n+= -8;
-   }
-   if (p[j]==(state->crsbuf)[g][(state->sign)[g]^j^4] && (p[5]&2)!=0 && nopro!=(state->numcrs)){
-    if ((p[j+1]&2)!=0){
-     if (n<0) n-=12;
-     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
-    }
-    else { /* 0 branch has fake bigon */
-     g=1;
-     if (p[5]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
-     if (n<0) n-=g;
-     else if (n>0) n+=g;
-    }
-   }
-   j^=4;
-   if (p[j]==i){  /* good fake bigon ahead of me */
-    if (p[1]!=j){
-     q= (state->crsbuf)[i];  /* wrong! twisted tangle behind! remove twists! */
-     mrecon (p+4,q+ (p[1]^4),state);
-     mrecon (p+ *c,q+ (p[j+1]^4),state);
-     sqush2 (k,i,state);
-     goto STEP1;
-    }
-    if (n>0) n= -4-n;
-    else n+= -8;
-   }
-   else if (p[j^4]==i){  /* bad fake bigon ahead */
-    if (n<0) n-= 8;
-    else if (n<8) n= 8;
-    if ((state->bstlst)[i]<0) (state->bstlst)[i]-=8;     /* mutualize */
-    else if ((state->bstlst)[i]<8) (state->bstlst)[i]=8;
-   }
-   if (p[j]==(state->crsbuf)[i][(state->sign)[i]^j^4] && (p[1]&2)!=0 && nopro!=(state->numcrs)){
-    if ((p[j+1]&2)!=0){
-     if (n<0) n-=12;
-     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
-    }
-    else { /* 0 branch has fake bigon (1 point) */
-     g=1;
-     if (p[1]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
-     if (n<0) n-=g;
-     else if (n>0) n+=g;
-    }
-   }
-   (state->bstlst)[k]=n;
-  }
-  c= (state->stc);
-  i= -8;
-  if (nopro==(state->numcrs)) m=0;
-  while (m>0){
-   m-=3;
-   n= *(c++);
-   g= *(c++);
-   p= (state->crsbuf)[n];  /* busting vertex of 3 cross circuit makes a removeable */
-   sp= (state->bstlst)+n;  /* + or - link on the 0 branch -- free 2 reduction */
-   k= p[*(c++)];
-   j= p[g];
-   if ((p[g|1]&2) != 0) p= (state->crsbuf)[j];
-   else p= (state->crsbuf)[j]+(state->sign)[j];
-   if (*p==k) --i;
-   if (*sp<0) *sp+= i-4;
-   else if (*sp==0) *sp= 4-i;
-   else *sp= i- *sp;
-  }
-  i= nopro= (state->numcrs);
-  k=n= 0;
-  sp= (state->bstlst)+(state->numcrs);
-  while (i--!=0){
-   if (*--sp<n){
-    n= *sp;
-    j=i;
-   }
-   else if (*sp>k){
-    k= *sp;
-    m=i;
-   }
-  }
-  if (n==0){
-   if (k==0){
-    j= dspair[2];
-    nopro=0;
-   }
-   else j=m;
-  }
-  else if (n>-14 && k>12) j=m; /* since exponential growth is 1.41^n */
-  ypow += bust(j,xpow,ypow,state);
-  xpow^=512;
-  ++(state->count)[(state->numcrs)-1];
- }
- // This point must be reached fairly often, so we're going to put in the timeout code here.
- end = clock();
- cpu_time_used = ((double)(end - start))/CLOCKS_PER_SEC;
- if (timeout > 0 && cpu_time_used > timeout) {
-   free(outpoly);
-   free(state);
-   return NULL;
- }
- if ((state->numcrs)!=0) goto STEP1;
- goto NEWNOT;
-}
-
-void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state)
-/* short top, vnum, vbrnch;
-   unsigned char *ovundr;
-   int flag; */
-{
- register short i, j, k, h, m, n;
- register unsigned char *s, *c, *p;
- register long *lp1, *lp2;
- short g;
- if ((m=vbrnch) >=0){
-  i= vnum;
-  s= (state->crsbuf)[i];
-  k= s[m];
-  g= s[m|1];
-  if (m!=0) c= s+4;
-  else c= s+((state->sign)[i]^4);
-  p= (state->crsbuf)[k]+g;
-  h= *p= *c;
-  n= p[1]= c[1];
-  p= (state->crsbuf)[h]+n;
-  *p= k;
-  p[1]= g;
-  s[6]= s[4]= s[2]= *s= i;
- }
- else ++(state->numlps);
- s= (state->clist);
- j= -1;
- while (top-1 > (i=k= ++j)){
-  while (++i<top){
-   if (s[i] < s[k]) k=i;
-  }
-  if (k!=j){    /* order crossings in (state->clist) */
-   i= s[j];
-   s[j]= s[k];
-   s[k]=i;
-   m= ovundr[j];
-   ovundr[j]= ovundr[k];
-   ovundr[k]= m;
-  }
- }
-      /* relink */
- m= top;
- while (m--!=0){
-  i= s[m];
-  g= ovundr[m];
-  k= (state->crsbuf)[i][g];
-  j= (state->crsbuf)[i][g|1];
-  h= (state->crsbuf)[k][j]= (state->crsbuf)[i][g|4];
-  n= (state->crsbuf)[k][j|1]= (state->crsbuf)[i][g|5];
-  (state->crsbuf)[h][n]= k;
-  (state->crsbuf)[h][n|1]= j;
- }
- if (flag!=0) return;
-      /* squish crossings out of the list */
- i= *s;
- lp1= (long *) (state->crsbuf)[i];
- lp2=lp1+(state->suplng);
- p= (state->sign)+i;
- c=p+1;
- j= 0;
- k=1;
- while (++i!=(state->numcrs)){
-  if (s[k]== i){
-   lp2+= (state->suplng);
-   ++c;
-   if (++k==top) k=0;
-  }
-  else {
-   *(lp1++)= *(lp2++);
-   if ((state->suplng)==2) *(lp1++)= *(lp2++);
-   *(p++)= *(c++);
-  }
- }
-     /* renumber branch pointers (subtract 1 if the crossing was after) */
- (state->numcrs)-= top;
- k= (state->numcrs);
- c= (state->crsbuf)[k];
- while (k--!=0){
-  j=5;
-  while (--j!=0){
-   c-=2;
-   i=top;
-   s= (state->clist)+i;
-   while (i--!=0){
-    if (*c> *--s) --*c;
-   }
-  }
- }
- return;
-}
-
-int ntc(long i,char *buf,lmpoly_state_t *state)
-{
- long j;
- int r;
- char *p;
- p=buf;
- r=0;
- if (i<0){
-  i= -i;
-  r=1;
-  *(p++)= '-';
- }
- if (i>999999999) j=1000000000;
- else if (i>99999999) j=100000000;
- else if (i>9999999) j=10000000;
- else if (i>999999) j=1000000;
- else if (i>99999) j=100000;
- else if (i>9999) j=10000;
- else if (i>999) j=1000;
- else if (i>99) j=100;
- else if (i>9) j=10;
- else j=1;
- while (j!=0){
-  ++r;
-  *(p++)= (i/j)%10+0x30;
-  j/=10;
- }
- *p='\n';
- return (r);
-}
-
-void delpow(lmpoly_state_t *state)
-{
- register long *lp1, *lp2, *lsp, *osp;
- register short i, j, k, m, s, mpos;
- short numlnk, mpow, u, v, x, y, z, order[2], prslen[2], pstlen[2];
- lp1=(state->b);
- if ((state->numlps)<4){
-  if ((state->numlps)==1){
-   *(lp1++)= -1;
-   *lp1= -1;
-  }
-  else if ((state->numlps)==3){
-   *(lp1++)= -1;
-   *(lp1++)= -3;
-   *(lp1++)= -3;
-   *lp1= -1;
-  }
-  else {
-   *(lp1++)= 1;
-   *(lp1++)= 2;
-   *lp1= 1;
-  }
- }
- else {
-  *lp1= 1;
-  (state->b)[1]= 4;
-  (state->b)[2]= 6;
-  k= (state->b)[3]= 4;
-  (state->b)[4]= 1;
-  while (k++!=(state->numlps)){
-   j=k;
-   (state->b)[j]=1;
-   while (--j!=0) (state->b)[j]+= (state->b)[j-1];
-  }
-  if (((state->numlps)&1)!=0) while (--k>=0) (state->b)[k]= -(state->b)[k];
- }
- *prslen= *pstlen= prslen[1]= pstlen[1]= mpos= mpow= 0;
- osp= (state->b)+ (state->numlps)+1;
- if ((state->poslnk)>(state->neglnk)){
-  order[1]= (state->poslnk);
-  *order= (state->neglnk);
- }
- else {
-  order[1]= (state->neglnk);
-  *order= (state->poslnk);
-  mpos=2;
- }
- z=2;
- while (z--!=0){
-  numlnk=order[z];
-  mpos^=2;
-  while (numlnk--!=0){
-   m= ++mpow;
-   s=j=k= (state->numlps)+1;
-   u= *pstlen;
-   v= pstlen[1];
-   ++prslen[z];
-   *pstlen= x= *prslen;
-   pstlen[1]= y= prslen[1];
-   lp2= osp;
-   lp1= lp2+ j+ m;
-   if (z==0) lp1+= order[1];
-   osp= lp1;
-   while (j--!=0) *--lp1=0;
-   while (m--!=0){
-    i=j= s;
-    lsp= lp1;
-    if (mpos== (z|2) && y>0) *--lsp=0;
-    if (mpos!=0) lp1+=k;
-    else lp1+=i;
-    while (j--!=0) *--lp1-= *--lp2;
-    lp2+=i;
-    lp1= lsp;
-    *--lp1=0;
-    while (i--!=0) *--lp1= *--lp2;
-    lp1= lsp;
-    lsp= lp2;
-    lp2= lp1-1;
-    j=s;
-    while (j--!=0) *--lp1+= *--lp2;
-    --lp1;
-    if (x-->0) ++k;
-    if (y-->0){
-     ++k;
-     if (mpos==z) *--lp1=0;
-    }
-    if (u-->0) ++s;
-    if (v-->0) ++s;
-    lp2=lsp;
-   }
-  }
- }
-}
-
-void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state)
-/*short ypow, xpow;
-long kcoeff;
-int mult, reach;*/
-{
-  register long *lp1, *lp2 = NULL, addon, *p; // Added init for lp2, JC.
-  register short i, j, k, numlnk, loops;
-  i= (state->poslnk);
-  k= (state->neglnk);
-  numlnk= i+k;
-  loops= (state->numlps)+ numlnk;
-  ypow+= XCNT-xpow-1+(state->lowx)+ 2*(k-i);
-  xpow-=(state->lowx)+loops;
-  p=(state->b);
-  while (numlnk-->=0){
-    if (reach!=0) lp2= (state->poly)[xpow+reach]+ypow-reach;
-    lp1= (state->poly)[xpow]+ ypow;
-    j= loops;
-    while (j-->=0){
-      addon= kcoeff* *(p++);
-      *lp1+= addon;
-      lp1+=2;
-      if (reach!=0){
-	*lp2+= mult*addon;
-	lp2+=2;
-      }
-    }
-    if (--i<0) --loops;
-    if (--k<0) --loops;
-    else ypow-=2;
-    xpow+=2;
-  }
-}
-
-void untwst(short l,short n,short i,short ex,lmpoly_state_t *state)
-/* short l, n, i, ex; */
-{
- register unsigned char *pl, *pn;
- register short g, h, m, k, d, e;
- short j;
- j= (state->sign)[i]; /* flip 3 crossing circuits */
- k= j^ex;
- ex^=4;
- m= j^ex;
- if ((state->sign)[l]-ex==2){
-  g= j^2;
-  h= g^4;
-  j= 6;
- }
- else {
-  h= j^2;
-  g= h^4;
-  j= 2;
- }
- pl= (state->crsbuf)[l];
- pn= (state->crsbuf)[n];
- d= pl[m];
- e= pl[m|1];
- pl[m]= pn[g];
- pl[m|1]= pn[g|1];
- if (d!=n){
-  pn[g]= d;
-  pn[g|1]= e;
- }
- else {
-  pn[g]= l;
-  pn[g|1]= k;
- }
- (state->crsbuf)[pl[m]][pl[m|1]]= l;
- (state->crsbuf)[pl[m]][pl[m|1]|1]= m;
- d= pn[h];
- e= pn[h|1];
- pn[h]= pl[k];
- pn[h|1]= m= pl[k|1];
- if (d!=l){
-  pl[k]= d;
-  pl[k|1]= e;
- }
- else {
-  pl[k]= n;
-  pl[k|1]= g;
- }
- (state->crsbuf)[pn[h]][m]= n;
- (state->crsbuf)[pn[h]][m|1]= h;
- h= pn[g|1];
- (state->crsbuf)[pn[g]][h]= n;
- (state->crsbuf)[pn[g]][h|1]= g;
- d= pl[k];
- e= pl[k|1];
- (state->crsbuf)[d][e]= l;
- (state->crsbuf)[d][e|1]= k;
- pl[ex]= g= (state->crsbuf)[i][ex];
- pl[ex|1]= h= (state->crsbuf)[i][ex|1];
- (state->crsbuf)[g][h]= l;
- (state->crsbuf)[g][h|1]= ex;
- pn[j]= g= (state->crsbuf)[i][k];
- pn[j|1]= h= (state->crsbuf)[i][k|1];
- (state->crsbuf)[g][h]= n;
- (state->crsbuf)[g][h|1]= j;
-}
-
-int conchk(lmpoly_state_t *state)
-{
- register short i, j;
- int vnum, vbrnch, top;
- char str[20], local_cbuf[XCNT*2];
- vnum=vbrnch= 0;
- (state->lowx)= 1;
- i=top= (state->numcrs)*2;
- while (i>=0) local_cbuf[i--]=0;
- i=0;
- while (i!=top){
-  --(state->lowx);
-  while (local_cbuf[i]==0){
-   local_cbuf[i]=1;
-   i=vnum;
-   j=vbrnch;
-   vnum= (state->crsbuf)[i][j];
-   vbrnch= (state->crsbuf)[i][j|1];
-   if (vnum>=(state->numcrs)){
-    write (1,"error at crossing #",19);
-    write (1,str,ntc((long)(i+1),str,state));
-    write (1,", knot can't have a crossing #",30);
-    write (1,str,ntc((long)(vnum+1),str,state)+1);
-    return (1);
-   }
-   if ((state->crsbuf)[vnum][vbrnch]!=i || ((state->crsbuf)[vnum][vbrnch|1])!=j){
-    write (1,"the possible connection from branch ",36);
-    write (1,str,ntc((long)(i+1),str,state));
-    *str= 'a'+(j>>1);
-    write (1,str,1);
-    write (1," to branch ",11);
-    write (1,str,ntc((long)(vnum+1),str,state));
-    *str= 'a'+(vbrnch>>1);
-    write (1,str,1);
-    write (1," is inconsistent\n",17);
-    return (1);
-   }
-   if (vbrnch==0){
-    write (1,"a-c part of crossing #",22);
-    write (1,str,ntc((long)(vnum+1),str,state));
-    write (1," is oriented backwards\n",23);
-    write (1,"with respect to crossing #",26);
-    write (1,str,ntc((long)(i+1),str,state)+1);
-    return (1);
-   }
-   else if (vbrnch== ((state->sign)[vnum] & 6)){
-    write (1,"b-d part of crossing #",22);
-    write (1,str,ntc((long)(vnum+1),str,state));
-    write (1," is oriented backwards\n",23);
-    write (1,"with respect to crossing #",26);
-    write (1,str,ntc((long)(i+1),str,state)+1);
-    return (1);
-   }
-   i= (vnum<<1) + ((vbrnch>>1)&1);
-   vbrnch^=4;
-  }
-  i=0;
-  while (local_cbuf[i]!=0) ++i;
-  vnum= i/2;
-  if ((i&1)!=0) vbrnch= (state->sign)[vnum] & 6;
-  else vbrnch=0;
- }
- return(0);
-}
-
-void mypause(int sig)
-{
-  //(state->restrt)=1;
- //signal(SIGTERM,pause);  /* pause is now a system function */
- signal(sig,mypause);
-}
-
-int bust(short tobust,short xpow,short ypow,lmpoly_state_t *state)
-/* short tobust, xpow, ypow; */
-{
- register unsigned char *fastp, *c;
- register long *lp1, *lp2;
- register short i, j, m, k, l, n, *sp;
- unsigned char *inbuf[XCNT], tsign[XCNT], *bstcrs;
- int dir;
- //long lngi;
- bstcrs= (state->crsbuf)[tobust];
- fastp=(state->sign);
- c=tsign;
- lp2= (long *) *(state->crsbuf);
- lp1= (long *) ((state->buf)+(state->notbeg));
- j=0;
- while (j!=(state->numcrs)){
-  if (j==tobust) ++fastp;
-  *(c++)= *(fastp++);
-  inbuf[j++]= (unsigned char *) lp1;
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
- }
- fastp= bstcrs;
- l= (state->sign)[tobust]/2;
- dir= 2-l;
- m= fastp[7-l];
- n= fastp[8-l];
- j= fastp[3*l-3];
- k= fastp[3*l-2];
- inbuf[j][k]= m;
- inbuf[j][k|1]= n;
- inbuf[m][n]= j;
- inbuf[m][n|1]= k;
- m= fastp[5-l];
- n= fastp[6-l];
- j= fastp[3-l];
- k= fastp[4-l];
- inbuf[j][k]= m;
- inbuf[j][k|1]= n;
- inbuf[m][n]= j;
- inbuf[m][n|1]= k;
- k= (state->numcrs)-1;
-     /* squish crossing out of the list (tsign has already been squished) */
- i= k-tobust;
- lp1= (long *) inbuf[tobust];
- lp2=lp1+(state->suplng);
- while (i--!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
- }
-     /* renumber branch pointers (subtract 1 if the crossing was after) */
- (state->notbeg)+= (state->numcrs)*8;
- fastp= *inbuf;
- while (++i!=k){
-  fastp[1]|= tsign[i]<<4;
-  j=5;
-  while (--j!=0){
-   if (*fastp>=tobust) --*fastp;
-   fastp+=2;
-  }
- }
- fastp= (state->buf)+(state->notbeg)-7;
- *fastp= *(fastp-1)=0;
- if (ypow+dir<0){
-  *fastp=1;
-  (state->buf)[(state->notbeg)-2]= -ypow-dir;
- }
- else (state->buf)[(state->notbeg)-2]= ypow+dir;
- if ((xpow&512) ==0) (state->buf)[(state->notbeg)-8]=1;
- *++fastp= (state->neglnk);
- *++fastp= (state->poslnk);
- *++fastp= (state->numlps);
- *++fastp= xpow+1;
- (state->buf)[(state->notbeg)-1]= i;
- fastp= bstcrs;
- sp= (short *) fastp;
- j= *sp;
- *sp= sp[l];
- sp[l]= sp[2];
- sp[2]= sp[l^2];
- sp[l^2]= j;
- (state->sign)[tobust]^=4;
- (state->crsbuf)[*fastp][fastp[1]|1]=0;
- (state->crsbuf)[fastp[2]][fastp[3]|1]=2;
- (state->crsbuf)[fastp[4]][fastp[5]|1]=4;
- (state->crsbuf)[fastp[6]][fastp[7]|1]=6;
- return (dir*2);
-}
-
-void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state)
-/*unsigned char *c, *p;*/
-{
- register short j, k, m, n;
- register unsigned char *ccb;
- k= *c;
- j= c[1];
- ccb= (state->crsbuf)[k]+j;
- n= *ccb= *p;
- m= ccb[1]= p[1];
- ccb= (state->crsbuf)[n]+m;
- *ccb= k;
- ccb[1]= j;
-}
-
-void squish(short sqush,lmpoly_state_t *state)
-/* short sqush; */
-{
- register short i, j, tosqsh;
- register unsigned char *p, *c;
- register long *lp1, *lp2;
-       /* squish crossing out of the list */
- tosqsh= sqush;
- j= --(state->numcrs)-tosqsh;
- lp1= (long *) (state->crsbuf)[tosqsh];
- lp2=lp1+(state->suplng);
- p= (state->sign)+tosqsh;
- c=p+1;
- while (j--!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
-  *(p++)= *(c++);
- }
-    /* renumber branch pointers (subtract 1 if the crossing was after) */
- i= (state->numcrs);
- p= (state->crsbuf)[i];
- while (i--!=0){
-  j=5;
-  while (--j!=0){
-   p-=2;
-   if (*p>=tosqsh) --*p;
-  }
- }
-}
-
-void sqush2(short n,short g,lmpoly_state_t *state)
-/* short n, g; */
-{
- long *lp1, *lp2;
- register unsigned char *p, *c;
- register short m, i, j;
-     /* squish crossings out of the list */
- i= n;
- m= g;
- if (m>i){
-  j=m;
-  m=i;
-  i=j;
- }
- lp1= (long *) (state->crsbuf)[m];
- lp2=lp1+(state->suplng);
- p=(state->sign)+m;
- c=p+1;
- j= i-m;
- while (--j!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
-  *(p++)= *(c++);
- }
- lp2+=(state->suplng);
- ++c;
- j= (state->numcrs)-i;
- (state->numcrs)-=2;
- while (--j!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
-  *(p++)= *(c++);
- }
-    /* renumber branch pointers (subtract 1 if the crossing was after) */
- p= (state->crsbuf)[(state->numcrs)];
- n= (state->numcrs);
- while (n--!=0){
-  j=5;
-  while (--j!=0){
-   p-=2;
-   if (*p>=i) --*p;
-   if (*p>=m) --*p;
-  }
- }
-}
-
-void triple(short m,short i,unsigned char *p,lmpoly_state_t *state)
-/*short m, i;
-  unsigned char *p; */
-{
- register unsigned char *crsi, *crsk;
- register short j, d, e, n, h, k;
- crsi= p;
- n= m^4;
- k= crsi[m];
- crsk= (state->crsbuf)[k];
- j= crsi[m|1];
- d= crsk[j]= crsi[n];
- e= crsk[j|1]= crsi[n|1];
- (state->crsbuf)[d][e]= k;
- (state->crsbuf)[d][e|1]= j;
- j^=4;
- d= crsi[m]= crsk[j];
- e= crsi[m|1]= crsk[j|1];
- (state->crsbuf)[d][e]= i;
- (state->crsbuf)[d][e|1]= m;
- crsi[n]= k;
- crsi[n|1]= j;
- crsk[j]= i;
- crsk[j|1]= n;
- j^=2;
- n= crsk[j];
- h= crsk[j|1]^4;
- d= crsk[j]= (state->crsbuf)[n][h];
- e= crsk[j|1]= (state->crsbuf)[n][h|1];
- (state->crsbuf)[d][e]= k;
- (state->crsbuf)[d][e|1]= j;
- j^=4;
- n= crsk[j];
- h= crsk[j|1]^4;
- d= crsk[j]= (state->crsbuf)[n][h];
- e= crsk[j|1]= (state->crsbuf)[n][h|1];
- (state->crsbuf)[d][e]= k;
- (state->crsbuf)[d][e|1]= j;
- j=m^2;
- n= crsi[j];
- h= crsi[j|1]^4;
- d= crsi[j]= (state->crsbuf)[n][h];
- e= crsi[j|1]= (state->crsbuf)[n][h|1];
- (state->crsbuf)[d][e]= i;
- (state->crsbuf)[d][e|1]= j;
- j^=4;
- m= crsi[j];
- h= crsi[j|1]^4;
- d= crsi[j]= (state->crsbuf)[m][h];
- e= crsi[j|1]= (state->crsbuf)[m][h|1];
- (state->crsbuf)[d][e]= i;
- (state->crsbuf)[d][e|1]= j;
- sqush2(n,m,state);
-}
-
-int tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state)
-/* short h, *bstlst, *dspair, *skflag; */
-{
- register short d, g, i, j, m, length, *q, *sp;
- register unsigned char *p, *tp = NULL, *vp; // Added init for tp. JC
- short k = 0, n, lngsum, badcrs = 0, vertex, lngpos = 0, i1, i2, i3, j1, j2, j3;
- sp=q= (state->tt);  /* # of overs and unders were passed in through *(state->tt) and [2] */
- lngsum= n= 0;
- if (*(state->tt) > (state->tt)[2]) n=2;
- else if (*(state->tt) == (state->tt)[2]) lngsum=1;   /* need to test BOTH overs & unders */
- vp= (state->clist);
- vertex=h;
- while (vertex-->0) *(sp++)= *(vp++);   /* make a working copy of (state->clist) */
- i= h-1;
- if ((h&1)!=(length=0)) vertex= (state->clist)[i];
- else {
-  if ((state->donlnk)[XCNT]==0){   /* if my check-off list is now invalid */
-   d= (state->numcrs);             /* re-set it all to 0 */
-   while (d-->0) (state->donlnk)[d]= 0;
-   (state->donlnk)[XCNT]=1;
-  }
-  if (((state->donlnk)[(state->clist)[i]]&((state->t)[i]+2))!=0) return(0);
- }
- m=j= h/2;
- *sp= -1;
- p=state->t;
- while (j-->length){
-  i=2;
-  while (*q==1024){
-   ++q;
-   ++p;
-  }
-  d= *q;
-  if (*(p++)==0) i+= (state->sign)[d];
-  g= (state->crsbuf)[d][i&6];
-  sp= ++q;
-  while (*sp>=0 && *sp!=g) ++sp;
-  if (*sp<0) j= -10;
-  else if (*sp==vertex) length= -1;
-  else *sp= 1024;
- }
- if (j== -11){
-  d=h;
-  sp=q= (state->tt);
-  vp= (state->clist);
-  while (d-->0) *(sp++)= *(vp++);
-  length=0;
-  p=state->t;
-  while (m-->length){
-   i=6;
-   while (*q==1024){
-    ++q;
-    ++p;
-   }
-   d= *q;
-   if (*(p++)==0) i+= (state->sign)[d];
-   g= (state->crsbuf)[d][i&6];
-   sp= ++q;
-   while (*sp>=0 && *sp!=g) ++sp;
-   if (*sp<0) m= -10;
-   else if (*sp==vertex) length= -1;
-   else *sp= 1024;
-  }
-  j-=m;
- }
- if (vertex< (length=lngsum=d=m= 0)){  /* if a link */
-  tp=p= state->t;
-  while ((n^*(p++))==0) ++d;  /* find first bad crossing and move it to the */
-  vp= (state->clist)+d;                /* front so that (state->clist) cannot break a string */
-  --p;                        /* of good crossings in a link from */
-  sp= (state->tt);                     /* (state->clist)[h-1] to (state->clist)[0] */
-  i=m= h-d;
-  while (m-->0){
-   (state->donlnk)[*vp]|= *(p++)+2;  /* also check off all list elements to assure */
-   *(sp++)= *(vp++);        /* this link never comes to tstcir again with */
-  }                         /* a different beginning crossing */
-  m=d;
-  vp= (state->clist);
-  while (m-->0){
-   (state->donlnk)[*vp]|= *tp+2;
-   *(sp++)= *vp;
-   *(vp++)= *(tp++);
-  }
-  p=state->t;
-  while (i-->0) *(p++)= *(tp++);
-  vp= (state->clist);
-  while (d-->0) *(p++)= *(vp++);
-  d=m= 0;
- }
- else {
-  sp= (state->tt);
-  vp= (state->clist);
-  i= h;
-  while (i-->0) *(sp++)= *(vp++);
- }
- p=state->t;
- g= h|1;         /* find the longest good string & put in "length" */
- (state->t)[g]= (state->t)[g-1];   /* also, the longest with only 1 bad crossing in "lngsum" */
- (state->t)[g-1]= n^2;    /* badcrs is the bad crossing in lngsum */
- while (++i<g){
-  if ((n^*(p++)) ==0) ++d;
-  else {
-   if (d>=length){
-    length=d;
-    k= i-d;
-   }
-   if (m+d>=lngsum){
-    lngsum= m+d+1;
-    if (d==0) tp= p-3;  /* tp points to a generic good crossing in lngsum */
-    else tp= p-2;
-    if (d!= (lngpos=i)) badcrs= (state->tt)[i-d-1];
-    else badcrs= (state->tt)[i];
-   }
-   m=d;
-   d=0;
-  }
- }
- i= h/2;
- if (vertex>=0 && length>=i){ /* can this circuit untwist its vertex? */
-   if (k==0 && (*(state->t)^*p)!=0) return (skinny(1,h,(short) 0,state));
-   else if (k+length+1==h && ((state->t)[k]^*p)==0) return (skinny(1,h,i,state));
- }
- if (j==0 && length>=i){     /* circuit is not skinny, and can be skinnied */
-  if (vertex>= (i1=0) && length==i){
-   m= k+i;
-   *(p-1)= *p;     /* infinite loops happen when the loose strand is shared */
-   d= (state->tt)[m-1];        /* between 2 intersecting circuits -- skflag prevents */
-   while (m>=k){           /* looping, allows me to skinny once per bust!   */
-    vp= (state->crsbuf)[(state->tt)[m]];
-    if ((state->t)[m]!=0) j=2;
-    if (vp[j]==d || vp[j^4]==d) m=i1= -1;  /* possible inf. loop circuit! */
-    else j=0;
-    m-=i;
-    if (k==0) d= (state->tt)[h-1];
-    else d=(state->tt)[k-1];
-   }
-  }
-  if (i1== (j=0)) return (skinny(0,h,k,state)); /* OK to skinny it! */
-  if (*skflag==0){
-   *skflag=1;
-   return (skinny(0,h,k,state)); /* OK to do ONE skinny */
-  }
- }
- if (lngsum>=i){
-  if (lngsum == h-2) lngsum=h;   /* a link w/only 2 crossings vanishes! */
-  d= (lngsum-i)*8;  /* and find all the extra benefits of badcrs */
-  if (j==0) ++d;    /* give one point for doing a skinny */
-  if (vertex>=0){
-   if (lngpos==lngsum && (*tp^*p)!=0) d+=4;
-   else if (lngpos+1==h && (*tp^*p)==0) d+=4;
-   else if (lngsum+1==h) d+=4;
-  }
-  if (d==8 && length==lngsum-1) d=0; /* this is really just a fake bigon */
-  if (j==0 && d!=0 && (state->numcrs)+ 2*(i-lngsum)>11) d+=2;
-  if ((k=lngpos-lngsum)!= (m=0) && d!=0){
-   if ((state->t)[k]!=0) m= (state->sign)[(state->tt)[k]];
-   if ((state->crsbuf)[(state->tt)[k]][m] == (state->tt)[k-1]) ++d;
-   if (k!=1 && ((state->t)[k-2]^(state->t)[k-1])!=0) ++d;
-  }
-  if (lngpos+1 != g && d!=0){
-   if ((state->t)[lngpos]!= (m=0)) m= (state->sign)[(state->tt)[lngpos]];
-   if ((state->crsbuf)[(state->tt)[lngpos]][m] == (state->tt)[lngpos-1]) ++d;
-   if (lngpos+2 !=g && ((state->t)[lngpos+1]^(state->t)[lngpos])!=0) ++d;
-  }
-  if (d<6 && j==0){    /* min. one point for making skinny circuits */
-   if (bstlst[badcrs]==0) bstlst[badcrs]= *dspair= 1;
-  }
-  else {
-   *dspair=1;
-   (state->donlnk)[badcrs]=0;  /* from badcrs's perspective, link may be better */
-   if (bstlst[badcrs]<0){
-    if (bstlst[badcrs]> -8-d) bstlst[badcrs]= -8-d;
-   }
-   else if (bstlst[badcrs]<d) bstlst[badcrs]=d;
-  }
- }
- else {
-  k= h/4;
-  if (*dspair<k) k= *dspair;
-  m=1;
-  while (m++<k){
-   tp=state->t;
-   *(state->gapsto)=j= 0;
-   d= m+1;
-   while (--d>0){
-    while ((*(tp++)^n) ==0) ++j;
-    (state->gapsto)[d]= j++;
-   }
-   while (j<g){
-    while ((*(tp++)^n) ==0) ++j;
-    length= (j-(state->gapsto)[d]-i)*4 +2;
-    if (length>0 && (m<*dspair || (m== *dspair && length>=dspair[1]))){
-     if (m<*dspair || length>dspair[1]) dspair[3]=0;
-     *dspair=m;
-     dspair[1]= length;
-     length=lngpos= 0;
-     if (d!=m) lngpos= d+1;
-     j1= j;
-     j2= (state->gapsto)[lngpos];
-     h=m;
-     while (h-->0){
-      if (++lngpos>m) lngpos=0;
-      vertex= (state->tt)[j2];
-      j3= (state->gapsto)[lngpos];
-      lngsum= j1-j3;
-      p= (state->crsbuf)[vertex];
-      i1= (state->sign)[vertex];
-      i2= p[i1];
-      i3= p[i1|1];
-      i1^=4;
-      if ((state->crsbuf)[i2][(i3+i1)&6]== p[4]){
-	//if ((p[5]^i3&2) !=0) lngsum= -1 -lngsum;
-	/* According to wikipedia, the & should come first, so this is */
-	if ((p[5]^(i3&2)) !=0) lngsum= -1 -lngsum;
-       else lngsum= -10 -lngsum;
-      }
-      i2= p[i1];
-      i3= p[i1|1];
-      if ((state->crsbuf)[i2][(i3+i1)&6]== *p){
-	if ((p[1]^(i3&2)) !=0){  // The same is true here
-        if (lngsum<0) lngsum-=5;
-        else lngsum= -1 -lngsum;
-       }
-       else if (lngsum<0) lngsum-= 10;
-       else lngsum= -10 -lngsum;
-      }
-      if (lngsum<0){
-       if (length>lngsum){
-        length= lngsum;
-        badcrs= vertex;
-       }
-      }
-      else if (length>=0 && length<lngsum){
-       length= lngsum;
-       badcrs= vertex;
-      }
-      j1=j2;
-      j2=j3;
-     }
-     i1= dspair[3];
-     if (length<0){
-      if (i1>length){
-       dspair[2]= badcrs;
-       dspair[3]= length;
-      }
-     }
-     else if (i1>=0 && i1<length){
-      dspair[2]= badcrs;
-      dspair[3]= length;
-     }
-     k=0;
-    }
-    (state->gapsto)[d--]= j++;
-    if (d<0) d=m;
-   }
-  }
- }
- return(0);
-}
-
-int skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state)
-/* short lencir, lngpos;
-   int twist; */
-{
- register short a, b, g, n, vnum, dir, *c;
- register unsigned char *p, *q, *cp;
- short i, j, k, m, last, f, v2; //*sp;
- vnum= -1;     /* assume circuit is a link */
- dir= 6;       /* and I will be placing loose strand LEFT of fixed strand */
- if ((lencir&1)!= (b=0)){
-  vnum= (state->tt)[lencir-1];                /* if not a link */
-  if (((state->t)[lencir-1]=(state->t)[lencir]) ==0) b= (state->sign)[vnum];
-    /* tstcir wrecks (state->t)[lencir-1] on non-links but saves a copy! */
- }
- if (vnum>=0){
-  g=vnum;      /* SET DIR PROPERLY!! */
-  while (b>=0){        /* if VERTEX is left of fixed strand, set dir RIGHT */
-   p=(state->crsbuf)[g]+b;  /* there is also a special case if I am untwisting */
-   g= *p;
-   b= *(p+1)^4;  /* walk out from the vertex -- do I run into the circuit? */
-   a=lencir;
-   c= (state->tt);
-   while (a>0 && *(c++)!=g) --a;
-   if (a>0){
-    if (*--c!=vnum){
-     if (b==0) dir= (state->sign)[*c]^4;     /* yes */
-     else dir=b;
-    }
-    else {
-     g= *(state->tt);     /* no -- I ran back into the vertex again */
-     b=6;              /* trace the first left region of the circuit */
-     if (*(state->t)==0) b=(state->sign)[g]-2;
-     n= (state->tt)[lencir-2];  /* does it connect to the other side of the circuit? */
-     while (g!=vnum && g!=n){
-      p= (state->crsbuf)[g]+b;
-      g= *p;
-      b= (*(p+1)+2)&6;
-     }
-     if (g==vnum) dir=2;  /* no -- vertex is left of fixed strand */
-    }
-    b= -1;
-   }
-  }
-  if (twist!=0) dir^=4;
- }
- a=j= lencir/2;   /* to move strand, remove it - then reinsert crossings by */
- p= (state->clist);       /* hand.  Put moveable crossings in (state->clist) & call rmcir */
- c= (state->tt)+lngpos;
- while (a-->0) *(p++)= *(c++);
- --(state->numlps);                   /* rmcir adds a (state->numlps) for fun */
- rmcir (j,(short) 0,a,(state->t)+lngpos,1,state);
- i=k= lngpos+j;
- if (vnum>=0){
-  --lencir;
-  if (lngpos==0 && twist==0) twist= -1;
- }
- else if (i==lencir) i=0;
- if (twist> (m=b= 0) && lngpos!=0){
-  if ((state->t)[lencir]==0) b= (state->sign)[vnum];
-  last= (state->crsbuf)[vnum][b];   /* set last properly if I am untwisting vertex */
-  f= (state->crsbuf)[vnum][b|1];
- }
- else {
-  last= (state->tt)[i];  /* set last to automatically hook up one of the bigon ends */
-  f= 4;
-  if ((state->t)[i]==0) f= (state->sign)[last]^4;
- }
- if ((state->t)[--k]==0) m=4;
- while (j-->0){
-  if (i==lencir) i=0;
-  g=dir;
-  vnum= (state->tt)[i];   /* vnum is the crossing on the fixed strand */
-  b= (state->sign)[vnum];
-  if ((state->t)[i++]==0) g+=b;
-  else b^=4;
-  p= (state->crsbuf)[last]+f;  /* reconnect the loose end from the last loop to the */
-  *(p++)= n= (state->tt)[k--];  /* present n */
-  q= (state->crsbuf)[n];   /* n is the crossing on the loose strand - q points to it */
-  (state->sign)[n]= a= b^m;   /* this calculation for (state->sign)[n] is a 2 step trick */
-  if (m==0){
-   a=0;
-   b=dir;
-  }
-  else b^=dir;
-  *p=a;
-  q[a]= last;   /* reconnect last going FOREWARDS along loose strand from n */
-  q[a+1]=f;
-  f= a^4;
-  g&=6;
-  cp= (state->crsbuf)[vnum]+g;
-  v2= *cp;             /* v2 is one step out the dir branch of fixed strand */
-  *(cp++)= last= n;
-  a= *cp;    /* reconnect vnum to n instead (insert n) */
-  *cp=b;
-  p= q+b;
-  *(p++)= vnum;   /* mutual from n to vnum */
-  *p=g;
-  b^=4;
-  p= (state->crsbuf)[v2]+a;  /* insert n from v2 side */
-  *(p++)= n;
-  *p=b;
-  p= q+b;     /* mutual connect from n */
-  *(p++)= v2;
-  *p=a;
- }
- if (twist!=0){       /* reconnect the loose end properly */
-  vnum=(state->tt)[lencir];
-  if ((state->t)[lencir]!= (dir=b=0)) dir=b=(state->sign)[vnum];
-  if (twist>0){
-   p= (state->crsbuf)[vnum];
-   if (lngpos==0){
-    n= p[b^4];
-    b= p[b^5];
-    if ((state->t)[lencir]== (dir=0)) dir=(state->sign)[vnum];
-   }
-   else {
-    n= (state->tt)[--i];
-    if ((state->t)[i]== (b=0)) b=(state->sign)[n];
-   }
-   a= p[dir];
-   g= p[dir|1];
-   k= p[dir^5];
-   dir= p[dir^4];
-   (state->crsbuf)[a][g]= dir;
-   (state->crsbuf)[a][g|1]=k;
-   (state->crsbuf)[dir][k]=a;
-   (state->crsbuf)[dir][k|1]=g;
-  }
-  else twist=0;
- }
- else if ((state->t)[--i]== (b=0)) b= (state->sign)[(state->tt)[i]];
- if (twist==0) n= (state->tt)[i];
- (state->crsbuf)[last][f]= n;
- (state->crsbuf)[last][f|1]= b;
- (state->crsbuf)[n][b]= last;
- (state->crsbuf)[n][b|1]= f;
- if (twist!=0) squish(vnum,state); /* if I untwisted vertex, now eliminate it */
- return(1);
-}
+/*          FAST VERSION       */
+/* A load balanced calculation of the oriented polynomial  Ver 1.1f */
+/* Bruce Ewing and Kenneth C. Millett  (author: Ewing)    Feb 5, 01 */
+/* Department of Mathematics */
+/* University of California */
+/* Santa Barbara, CA 93106 */
+/* there is a hard limit of 255 crossings in this program */
+
+#include <config.h>
+
+#ifdef HAVE_SIGNAL_H
+#include <signal.h>
+#endif
+
+#ifdef HAVE_SYS_TYPES_H
+#include <sys/types.h>
+#endif
+
+#ifdef HAVE_SYS_TIMES_H
+#include <sys/times.h>
+#endif
+
+#include <stdio.h>
+#include <stdlib.h>
+
+#ifdef HAVE_UNISTD_H
+#include <unistd.h>
+#endif
+
+#ifdef HAVE_FCNTL_H
+#include <fcntl.h>
+#endif
+
+#include <string.h>
+#include <time.h>
+#include <assert.h>
+
+  /* values the USER needs to define!! */
+#define XCNT       250     /* maximum crossings in knot (at most 255) */
+#define XCNTSQ   62500     /* YOU MUST CALCULATE XCNT SQUARED! */
+#define XCSQTR  187500     /* YOU MUST CALCULATE XCNTSQ times THREE! */
+
+
+/* system values -- it's best if these are not touched */
+#define EOFCHR       0     /* integer value of my "end of file" character */
+#define MAXBIL   32767     /* positive value where overflow warning triggers */
+
+#define MAXPOLY  12000     /* Maximum # of characters for output poly */
+
+/* globals */
+
+typedef struct state_struct {
+
+  int readpos;
+  int writepos;
+
+  long plybuf[XCNTSQ], *poly[XCNT], notbeg, count[XCNT], b[XCNT+1];
+  unsigned char sign[XCNT], donlnk[XCNT+1], t[XCNT+2], crsbuf[XCNT+1][8];
+  unsigned char buf[XCSQTR], cbuf[10242], clist[XCNT+2], stc[XCNT*2];
+  short numcrs, numlps, poslnk, neglnk, lowx, restrt, gapsto[65];
+  short tt[XCNT+2], bstlst[XCNT], bilbuf[XCNTSQ], *bilion[XCNT], suplng;
+
+} lmpoly_state_t;
+
+/* Prototypes for later functions */
+
+void mypause(int sig);
+int  ntc(long i,char *buf,lmpoly_state_t *state);
+int  conchk(lmpoly_state_t *state);
+void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state);
+void squish(short sqush,lmpoly_state_t *state);
+void sqush2(short n,short g, lmpoly_state_t *state);
+void triple(short m,short i,unsigned char *p,lmpoly_state_t *state);
+void untwst(short l,short n,short i,short ex,lmpoly_state_t *state);
+void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state);
+int  tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state);
+void delpow(lmpoly_state_t *state);
+void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state);
+int  bust(short tobust,short xpow,short ypow,lmpoly_state_t *state);
+int  skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state);
+
+int strread(char *str,void *buffer,size_t size,lmpoly_state_t *state)
+
+/* Reads up to size characters from string, copying the results to buffer. */
+/* We keep a (global) count of our position in the string internally.      */
+/* Return the number of characters read, or 0 at the end of the string.    */
+/* We don't copy the terminating NULL from str. */
+
+{
+  int ctried,cread;
+
+  for(ctried=0,cread=0;ctried < size;ctried++) {
+
+    if (str[(state->readpos)] != 0) {
+
+      ((char *) buffer)[cread++] = str[(state->readpos)++];
+
+    }
+
+  }
+
+  return cread;
+}
+
+int strwrite(char *str,char *buffer,size_t size,lmpoly_state_t *state)
+
+/*   Writes size characters from buffer to str. Returns the number of  */
+/*   characters written. We keep a static counter of where we are in   */
+/*   the string. */
+
+{
+  int ctried,cwrote;
+
+  for(ctried=0,cwrote=0;ctried < size;ctried++) {
+
+    str[(state->writepos)++] = buffer[cwrote++];
+
+    if ((state->writepos) > MAXPOLY-1) {
+
+      printf("lmpoly: Output polynomial larger than %d characters.\n",
+	     MAXPOLY);
+
+      exit(1);
+
+    }
+
+  }
+
+  return cwrote;
+}
+
+
+char *plc_lmpoly(char *code, int timeout)
+/* This version takes a timeout in seconds. Returns NULL pointer if the computation takes too long. */
+{
+ register short i, j, k, h, m, n, *sp;
+ register unsigned char *p, *c;
+ int in = 0, out, stats, len, len2, pause();
+ long lngi, *lp1, *lp2, kstrt, cmpval;
+ short g, xpow, ypow, dspair[4], maxcrs, chksiz, nopro, skflag;
+ unsigned char nbuf[82], *q, *s;
+ //struct tms hi;
+ char *outpoly;
+
+ clock_t start,end;
+ double  cpu_time_used;
+
+ lmpoly_state_t *state = calloc(1,sizeof(lmpoly_state_t));
+ assert(state != NULL);
+
+ start = clock();
+
+ if (code == NULL) { free(state); return NULL; }
+
+ /* It's possible that we'll be fed a code with only one crossing */
+ /* This will crash the rest of the code, so we insert some stuff here */
+ /* to catch this case and return [[0]]N for the unknot. --JHC */
+
+ int newlinecount = 0;
+ char *codeptr;
+ for(codeptr = code;codeptr != NULL;) {
+
+   codeptr = strchr(codeptr,'\n');
+   if (codeptr != NULL) {
+     newlinecount++;
+     codeptr++;
+   }
+
+} /* Count newlines */
+
+ if (newlinecount == 3) { /* Exactly one crossing */
+
+   outpoly = calloc(128,sizeof(char));
+   sprintf(outpoly,"[[1]]N ");
+   free(state);
+   return outpoly;
+
+ }
+
+/* Now back to your regularly scheduled programming. */
+
+ outpoly = calloc(MAXPOLY,sizeof(char)); // Space for a large polynomial
+ (state->readpos) = 0;  // Reset the globals
+ (state->writepos) = 0;
+
+ maxcrs=XCNT;    /* maximum crossings in a knot, including all limits */
+ chksiz= 50;     /* knot size trigger where (state->bilion) is checked, stats printed */
+ *(state->sign)= 255;      /* do 3 tests on the machine to verify trick operation */
+ i= (short) *(state->sign);
+ if (i< (lngi=0)){
+  write (1,"unsigned char problem - can't calculate knot >127 crossings\n",60);
+  if (maxcrs>127) maxcrs=127;
+ }
+ kstrt= 0x01020304;
+ p= (unsigned char *) &kstrt;
+ c= (unsigned char *) &lngi;
+ *(c++)= *(p++);
+ *(c++)= *(p++);
+ *(c++)= *(p++);
+ *c= *p;
+ if (lngi!= 0x01020304){
+  write (1,"long int pointer copy problem -- halt/restart won't work\n",57);
+ }
+ *nbuf= nbuf[1]= nbuf[2]= nbuf[3]= 0;
+ (state->t)[0]=1;
+ (state->t)[1]=2;
+ (state->t)[2]=3;
+ (state->t)[3]=4;
+ lp1= (long *) (state->t);
+ lp2= (long *) nbuf;
+ *lp2= *lp1;
+ if (*nbuf!=1 || nbuf[1]!=2 || nbuf[2]!=3 || nbuf[3]!=4){
+  write (1,"4 byte copy problem -- use PORTABLE PROGRAM version!\n",53);
+  exit (1);
+ }
+ if (sizeof(lngi)== ((state->suplng)=2)){
+  write(1,"halt/restart won't work, and watch for coefficient overflows\n",61);
+  cmpval= 10000;
+  chksiz= 20;
+ }
+ else cmpval= 1000000000;     /* how big a value fits in a poly memory slot? */
+ if (sizeof(lngi)== 8) (state->suplng)= 1;
+
+ // if (argc<2){
+ // write (1,"usage:  lmpoly -rs knotfile [knotfile ...]\n",43);
+ // exit (1);
+ //}
+
+ /* if ((out=open("lmknot.out",1))== -1){ */
+/*   if ((out=creat("lmknot.out",0644))== -1){ */
+/*    write (1,"fatal: cannot create output file 'lmknot.out'\n",46); */
+/*    exit (1); */
+/*   } */
+/*  } */
+/*  else lseek (out,(long) 0,2); */
+/*  close (out); */
+
+ *(state->count)= (state->restrt)= i= j= kstrt= nopro= 0;
+ stats= -1;
+
+ /* This code appears to detect "restarts" and "stats", neither of which
+    we are currently implementing. */
+
+ /* if (*argv[1]=='-'){
+  if (argc==2 && argv[1][1]=='r'){
+   (state->restrt)=1;
+   if (argv[1][2]=='s') stats= 0;
+  }
+  else if (argv[1][1]=='s'){
+   stats= 0;
+   ++argv;
+   --argc;
+  }
+  } */
+
+
+ lp1= state->plybuf;
+ sp= (state->bilbuf);
+ while (j<XCNT){
+  (state->poly)[j]= lp1;
+  (state->bilion)[j]= sp;
+  lp1+= 1+ 2* (XCNT- ++j);
+  sp+= 1+ 2* (XCNT-j);
+ }
+NEWFIL:
+
+ /* We comment out some "stats" code, since we won't display stats anyway. */
+
+ /* if (stats>0){     // remove stats info for previous knot file
+  i= strlen(*argv);
+  c= (unsigned char *) *argv+i-1;
+  if (i>11) i=11;
+  while (i--!=0 && *c!='/') --c;
+  p=t;
+  while (*++c!=0) *(p++)= *c;
+  *(p++)= '.';
+  *(p++)= 'l';
+  *p=0;
+  close (stats);
+  unlink(t);
+  } */
+ /* if (--argc==0) exit(0); */ /* This was the exit point for the program */
+
+ /* We also comment out some "restart" code since we aren't restarting */
+
+ /*if ((state->restrt)!=0){           // if I am restarting an old calculation
+  if ((in=open("lmpoly.(state->restrt)",0))== -1){
+   write (1,"couldn't find restart file\n",27);
+   exit (0);
+  }
+  read (in,nbuf,82);
+  read (in,(state->cbuf),12);
+  *argv= (char *) (state->cbuf);
+  read (in,(state->buf),7);
+  (state->numcrs)= *(state->buf);
+  xpow= (short) (state->buf)[2];
+  ypow= (short) (state->buf)[1];
+  (state->numlps)= (short) (state->buf)[3];
+  (state->poslnk)= (short) (state->buf)[4];
+  (state->neglnk)= (short) (state->buf)[5];
+  if (((state->buf)[6]&1) !=0) ypow= -ypow;
+  if (((state->buf)[6]&2) !=0) xpow|= 512;
+  read (in,*(state->crsbuf),(state->numcrs)*8);
+  i= 0;
+  while (i!=(state->numcrs)){
+   (state->sign)[i]= (state->crsbuf)[i][1]>>4;
+   (state->crsbuf)[i++][1]&=6;
+  }
+  p= (unsigned char *) &(state->lowx);
+  read (in,p,2);
+  p= (unsigned char *) &kstrt;
+  read (in,p,4);
+  p= (unsigned char *) &notbeg;
+  read (in,p,4);
+  read (in,(state->buf), (int) notbeg);
+  read (in,(char *) count,XCNT*4);
+  read (in,(char *) state->plybuf,4*XCNT*XCNT);
+  read (in,(char *) (state->bilbuf),2*XCNT*XCNT);
+  close (in);
+  in=0;
+  s= (state->cbuf)+14;
+  *s= EOFCHR;
+ }
+ else if ((in=open(*++argv,0))==-1){
+  write (1,"cannot open ",12);
+  write (1,*argv,strlen(*argv));
+  write (1,", skipping\n",11);
+  goto NEWFIL;
+ }
+ if (stats>=0){
+  i= strlen(*argv);
+  q= (unsigned char *) *argv+i-1;
+  if (i>11) i=11;
+  while (i--!=0 && *p!='/') --q;
+  p=t;
+  while (*++q!=0) *(p++)= *q;
+  *(p++)= '.';
+  *(p++)= 'l';
+  *p=0;
+  if ((stats=creat(t,0644)) <0) stats=0;
+ }
+ if ((state->restrt)!=0){
+  if (stats>0){
+   write (stats,nbuf,strlen(nbuf));
+   write (stats,"\n",1);
+  }
+  (state->restrt)=0;
+  goto STEP1; // restart file has set up all NEWNOT data already
+ }
+ */
+
+ c = (state->cbuf);
+
+ /* This code fragment copies the input file into a character buffer,
+    appending the EOF character to the end of the string. Instead, we
+    copy our input "code" buffer into the (state->cbuf) array.
+
+    Original code:
+
+    c[read(in,c,10240)]= EOFCHR;
+
+ */
+
+ int   mypos;
+ for(mypos = 0;code[mypos] != 0 && mypos < 10240-1;mypos++) {
+   c[mypos] = code[mypos];
+ }
+ c[mypos]= EOFCHR;
+
+ while (*c=='\n') ++c;
+
+ s=c;
+NEWNOT:
+ i= XCNT-1;
+ while (i!=0 && (state->count)[i]==0) --i;
+ if (*(state->count)!= ((state->numcrs)=0)){
+  if (stats>=0){
+   if ((out=open("lmknot.stats",1))== -1) out=creat("lmknot.stats",0644);
+   else lseek (out,(long) 0,2);
+  }
+/*   if (stats>=0 && out>0){ */
+/*    write (out,nbuf,strlen(nbuf)); */
+/*    write (out,"\n",1);     /\* write out statistics for knot just completed *\/ */
+/*    lngi=0; */
+/*    while (i!=0){ */
+/*     write (out,t,ntc((long)(i+1),t,state)); */
+/*     write (out,"     ",5); */
+/*     write (out,t,ntc(count[i],t)+1,state); */
+/*     lngi+= count[i--]; */
+/*    } */
+/*    write (out,"\ntotal: ",8); */
+/*    write (out,t,ntc(lngi,t,state)+1); */
+/*    write (out,"run: ",5); */
+/*    times(&hi); */
+/*    lngi= ((hi.tms_utime-kstrt)*5)/3; */
+/*    write (out,t,ntc(lngi/100,t,state)); */
+/*    write (out,".",1); */
+/*    len= ntc(lngi%100,t,state); */
+/*    write (out,"0",2-len); */
+/*    write (out,t,len); */
+/*    write (out," s\n\n",4); */
+/*    kstrt= hi.tms_utime; */
+/*    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40); */
+/*    close (out); */
+/*   } */
+  k= XCNT;
+  i=0;
+  while (k!=0 && i==0){
+   i= 2+ 2*(XCNT-k);
+   lp1= (state->poly)[--k];
+   sp= (state->bilion)[k];
+   while (--i!=0 && *lp1==0 && *(sp++)==0) ++lp1;
+  }
+  if (i!=0){
+
+    /* Original code:
+
+       if ((out= open("lmknot.out",1))<0) out=open("temp.out",1);
+
+       lseek (out,(long) 0,2);
+       write (out,nbuf,strlen(nbuf));
+       write (out,"\n",1); */
+
+    /* write out polynomial for knot just completed */
+
+    /* These lines would copy the first line of the crossing code into
+       the output. We don't need this, so we forget it */
+
+    /*strwrite(outpoly,(char *)(nbuf),strlen((char *)(nbuf)));
+      strwrite(outpoly," ",1); */
+
+    /*
+    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40);
+    if (count[1]!=0) write (out,"coefficient overflow error: output BAD\n",39);
+    */
+
+    if ((state->count)[2]<0) {
+
+      printf("lmpoly: knot became inconsistent.\n");
+      exit(1);
+
+    }
+
+    if ((state->count)[1]!=0) {
+
+      printf("lmpoly: coefficient overflow error.\n");
+      exit(1);
+
+    }
+
+    len=m= -1;
+    while (m++<k || (state->lowx) <= 0){
+        if ((state->lowx)== (i=0)) strwrite (outpoly,"[",1,state);
+        n= XCNT-m-1;
+        j= n*2;
+        while (j!=n && (state->poly)[m][j]==0 && (state->bilion)[m][j]==0) --j;
+        while (i!=n && (state->poly)[m][i]==0 && (state->bilion)[m][i]==0) ++i;
+        if (len==0 || (state->lowx)>=0 || i!=j || (state->poly)[m][i]!=0 || (state->bilion)[m][i]!=0){
+            while (i<=j){
+                if (i==n) strwrite (outpoly,"[",1,state);
+                h=0;
+                lngi= (state->poly)[m][i];
+                if (lngi>=cmpval || lngi<= -cmpval){
+                    h= lngi/cmpval;
+                    lngi-= h* cmpval;
+                }
+                h+= (state->bilion)[m][i];
+                if (h*lngi <0){   /* (state->bilion) and poly are different signs */
+                    if (h<0){
+                        lngi-= cmpval;
+                        ++h;
+                    }
+                    else {
+                        lngi+= cmpval;
+                        --h;
+                    }
+                }
+                if (h!=0){
+                    if (lngi<0) lngi= -lngi;
+                    strwrite (outpoly,(char *)(state->t),ntc((long) h,(char *)(state->t),state),state);
+                    len= ntc(lngi,(char *)(state->t),state);
+                    if (cmpval==10000) len2= 4-len;
+                    else len2= 9-len;
+                    strwrite (outpoly,"00000000",len2,state);
+                    strwrite (outpoly,(char *)(state->t),len,state);
+                }
+                else strwrite (outpoly,(char *)(state->t),ntc(lngi,(char *)(state->t),state),state);
+                if (i++ ==n) strwrite (outpoly,"]",1,state);
+                if (i<=j) strwrite (outpoly," ",1,state);
+            }
+            if ((state->lowx)== (len=0)) strwrite (outpoly,"]",1,state);
+            strwrite (outpoly,"N",1,state);
+        }
+        ++(state->lowx);
+    }
+  }
+  strwrite (outpoly," ",1,state);
+  /* close(out); */ /* We are done writing the polynomial, so return */
+  free(state);
+  return outpoly;
+ }
+ i= XCNT;
+ while (i!=0) (state->count)[--i]=0; /* Erase the (state->count) buffer */
+ c=s;
+ *nbuf=0;                   /* Erase the nbuf string? */
+ if (*c!='1' || (*(c+1)!='+' && *(c+1)!='-')){
+  /* Copy first line of 's' into nbuf */
+  p= nbuf;
+  while (*c!='\n' && *c!= EOFCHR) *(p++)= *(c++);
+  *p= 0;
+  /* if (*c != EOFCHR && stats>0){ */
+/*    lseek (stats,(long) 0,0); */
+/*    write (stats,nbuf,strlen(nbuf)); */
+/*    write (stats,"\n",1); */
+/*   } */
+ }
+ if (*c=='\n') ++c;
+ p= *(state->crsbuf);
+ while (*c!='\n' && *c!=EOFCHR){
+  if ((state->numcrs)==maxcrs){
+    //write (1,"too many crossings in knot\n",27);
+    printf("lmpoly: too many crossings in knot\n");
+    free(outpoly);
+    free(state);
+    return NULL;
+  }
+  while (*c>='0' && *c<='9') ++c;
+  if (*c=='+') (state->sign)[(state->numcrs)]=6;      /* (state->sign)[] says what crossings are + or - */
+  else if (*c=='-') (state->sign)[(state->numcrs)]=2;
+  else if (*c==EOFCHR) --c;
+  else {
+    //write (1,"the format of this knot is unreadable, skipping file\n",53);
+    //close (in);
+    //goto NEWFIL;
+    printf("lmpoly: Could not parse input string.\n");
+    free(outpoly);
+    free(state);
+    return NULL;
+  }
+  ++c;
+  j=4;
+  while (j--!= (i=0) && *c!=EOFCHR){
+   while (*c>='0' && *c<='9'){
+    i*=10;
+    i+= *(c++)-0x30;
+   }
+   if (i==0){
+     //write (1,"the format of this knot is unreadable, skipping file\n",53);
+     //close (in);
+     //goto NEWFIL;
+     printf("lmpoly: Could not parse input string.\n");
+     free(outpoly);
+     free(state);
+     return NULL;
+   }
+   *(p++)= i-1;
+   if (*c!=EOFCHR){
+    if (*c<'a' || *c>'d'){
+      //write (1,"the format of this knot is unreadable, skipping file\n",53);
+      //close (in);
+      //goto NEWFIL;
+      printf("lmpoly: Could not parse input string.\n");
+      free(outpoly);
+      free(state);
+      return NULL;
+    }
+    *(p++)= (*(c++)-'a')*2;
+   }
+  }
+  ++(state->numcrs);
+  if (*c=='\n') ++c;
+ }
+ if (*c==EOFCHR){
+  c=(state->cbuf);
+  len=10240;
+  while (*s!=EOFCHR){
+   *(c++)= *(s++);
+   --len;
+  }
+  if (in!=0 && (i=read(in,c,len))!=0){
+   c[i]=EOFCHR;
+   c=(state->cbuf);
+   while (*c=='\n') ++c;
+   s=c;
+   goto NEWNOT;
+  }
+  *c= EOFCHR;
+  if (in!=0){
+   close (in);
+   in=0;
+  }
+  else goto NEWFIL;
+  if ((state->numcrs)<2) goto NEWFIL;
+ }
+ while (*c=='\n') ++c;
+ s=c;
+ lp1= *(state->poly);
+ sp= *(state->bilion);
+ lngi= XCNT*XCNT;
+ while (--lngi!=0) *(lp1++)= *(sp++)= 0;
+ (state->notbeg)=(state->numlps)=(state->poslnk)=(state->neglnk)= xpow= ypow= 0;
+ if (conchk(state)!=0) exit(0);
+ *(state->count)=1;
+STEP1:
+ skflag=0;
+RESTRT:
+ if ((state->restrt)!=0){
+   /* We don't include the restart functionality for now. */
+
+  /* if ((out=creat("lmpoly.restrt",0644))!= -1){ */
+/*    write (out,nbuf,82); */
+/*    i= strlen(*argv)-11; */
+/*    if (i<0) i=0; */
+/*    write (out,*argv+i,12); */
+/*    *(state->cbuf)= (state->numcrs); */
+/*    if (ypow<0){ */
+/*     ypow= -ypow; */
+/*     (state->cbuf)[6]=1; */
+/*    } */
+/*    else (state->cbuf)[6]=0; */
+/*    if ((xpow&512) !=0) (state->cbuf)[6]|= 2; */
+/*    (state->cbuf)[1]= ypow; */
+/*    (state->cbuf)[2]= xpow; */
+/*    (state->cbuf)[3]= (state->numlps); */
+/*    (state->cbuf)[4]= (state->poslnk); */
+/*    (state->cbuf)[5]= (state->neglnk); */
+/*    write (out,(state->cbuf),7); */
+/*    i= -1; */
+/*    while (++i!=(state->numcrs)) (state->crsbuf)[i][1]|= (state->sign)[i]<<4; */
+/*    write (out,*(state->crsbuf),(state->numcrs)*8); */
+/*    p= (un(state->sign)ed char *) &(state->lowx); */
+/*    write (out,p,2); */
+/*    times(&hi); */
+/*    kstrt-= hi.tms_utime; */
+/*    p= (un(state->sign)ed char *) &kstrt; */
+/*    write (out,p,4); */
+/*    p= (unsigned char *) &notbeg; */
+/*    write (out,p,4); */
+/*    write (out,buf, (int) notbeg); */
+/*    write (out,(char *) count,XCNT*4); */
+/*    write (out,(char *) state->plybufn,4*XCNT*XCNT); */
+/*    write (out,(char *) (state->bilbuf),2*XCNT*XCNT); */
+/*    close (out); */
+/*    close (stats); */
+/*    exit(0); */
+/*   } */
+   /*write (1,"couldn't create restart file 'lmpoly.restrt'\n",45);*/
+
+   printf("lmpoly: Warning! This version does not save"
+	  " restart info on quit.\n"
+	  "        Terminating run now.\n\n");
+   exit(0);
+   /*restrt=0; */
+ }
+/* FIRST -- remove figure 8 loops, 2 cases  "#-#d#c#b#a"  "#+#b#a#d#c" */
+/* SECOND -- remove monogons (must recheck previous crossings) */
+/* 4 cases  "#+#b#a????"  "#+????#d#c"  "#-#d????#a"  "#-??#c#b??" */
+/* THIRD -- remove bigons -- make sure loops don't get forgotten. */
+/* 2 cases "k?mcmb???? m???kbka??"  "k?mc????md  m?????kakd" */
+/* bigon yanker MUST be completely thorough or loops can get lost later */
+ *dspair=g= i= (state->numcrs);
+ c=p= (state->crsbuf)[i];
+ k=2;
+ while (i--!=0){  /* loop through all crossings */
+  p-=8;
+  if (*p==i){
+   if (p[4]==i) ++(state->numlps);
+   else mrecon (p+4,p+(state->sign)[i],state);
+   squish (i,state);
+   goto STEP1;
+  }
+  else if (p[4]==i){
+    mrecon (p,p+((state->sign)[i]^4),state);
+    squish (i,state);
+   goto STEP1;
+  }
+   /* this bigon test checks that ka points to some mc, */
+    /* and kd to md, or kb to mb */
+  if (p[1]==4 && ((*p==p[6] && p[7]==6) || (*p==p[2] && p[3]==2))){
+   if ((j= *p) ==p[2]) k=6;
+   c= (state->crsbuf)[j];
+   if (p[4]==j) ++(state->numlps);
+   if (p[2]==p[6]) ++(state->numlps);
+   mrecon (p+4,c,state);
+   mrecon (p+k,c+k,state);
+   sqush2 (i,j,state);
+   goto STEP1;
+  }
+  (state->bstlst)[i]= 0;
+ }
+ if ((state->numcrs)<6) g=0;
+/* find very good and ok triples */
+ while (g--!= (lngi=0)){
+  c-=8;
+  p= (state->crsbuf)[*c]+ ((c[1]^2)&2);
+  q= (state->crsbuf)[c[4]]+ ((c[5]^2)&2);
+  if ((i= c[2]) != (j= c[6]) && *c!=c[4]){
+   if ((m= *q) == (n= q[4])) m=n= -1;
+   if ((h= *p) == (k= p[4])) h=k= -1;
+   if ((h==i && k==j) || (j==h && k==i)) lngi=1;
+   if ((m==i && n==j) || (m==j && n==i)) lngi|=2;
+   if ((n==j || m==j) && (k==j || h==j)) lngi|=4;
+   if ((m==i || n==i) && (h==i || k==i)) lngi|=8;
+  }
+  else {
+   h=0;       /* there is a ring through this crossing */
+   if (i!=j){
+    i= *c;   /* on over branch */
+    h=2;
+   }
+   else if (*c==c[4]){
+    ++(state->numlps); /* knot's a distant union with a 2-link */
+    if ((state->sign)[g]==2) ++(state->neglnk);
+    else ++(state->poslnk);
+    sqush2 (g,i,state);
+    goto STEP1;
+   }
+   j=h;
+   c+=h;
+   if ((state->sign)[g]!=(state->sign)[i]) ++(state->numlps); /* loose ring */
+   else {
+    if ((state->sign)[g]==2) ++(state->neglnk);
+    else ++(state->poslnk);
+    j= h^2;
+   }
+   p= (state->crsbuf)[i]+j;  /* only do one mrecon unless I HAVE to do 2 */
+   q= c+4;
+   if (*c==i){
+    if ((c[1]&4) ==0) c= p+4;
+    else c=p;
+   }
+   else if (*q==i){
+    if ((q[1]&4) ==0) q= p+4;
+    else q=p;
+   }
+   else mrecon (p,p+4,state);
+   mrecon (c,q,state);
+   sqush2 (g,i,state);
+   goto STEP1;
+  }
+  if (lngi!=0){
+   k= lngi;
+   *dspair=1;
+   if ((k&3)!=0){
+    if ((c[3]&c[7]&2)!=0){
+      triple((short) ((k&2)<<1),g,c,state);
+     goto STEP1;
+    }
+    if (((c[3]^c[7])&2)!=0){
+     if ((c[((k&2)<<1)|1]&2)==0){
+      if ((state->sign)[c[(k&2)<<1]]!=(state->sign)[g]) (state->bstlst)[i]= (state->bstlst)[j]= -19;
+      else (state->bstlst)[i]= (state->bstlst)[j]= 8;
+     }
+     else {
+      n=8;
+      if ((state->sign)[c[(k&2)<<1]]==(state->sign)[g]) n= -8;
+      sp= (state->bstlst)+i;
+      if ((c[3]&2)!=0) sp= (state->bstlst)+j;
+      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
+     }
+    }
+    else {
+     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
+     else (state->bstlst)[g]-= 8;
+    }
+   }
+   if (k>3){
+    if (((c[1]|c[5])&2)==0){
+      triple((short) ((k&4)|2),g,c,state);
+     goto STEP1;
+    }
+    if (((c[1]^c[5])&2)!=0){
+     if ((c[(k&4)|3]&2)!=0){
+      if ((state->sign)[c[(k&4)|2]]!=(state->sign)[g]) (state->bstlst)[*c]= (state->bstlst)[c[4]]= -19;
+      else (state->bstlst)[*c]= (state->bstlst)[c[4]]= 8;
+     }
+     else {
+      n=8;
+      if ((state->sign)[c[(k&4)|2]]==(state->sign)[g]) n= -8;
+      sp= (state->bstlst) + c[4];
+      if ((c[1]&2)!=0) sp= (state->bstlst)+ *c;
+      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
+     }
+    }
+    else {
+     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
+     else (state->bstlst)[g]-= 8;
+    }
+   }
+  }
+ }
+ /* circuit remover */
+ j= (state->numcrs)-1;
+ if (j<3) j= -1;
+ else if (j<11){    /* <12 will blow up */
+  p= *(state->crsbuf)+1;
+  i=(state->numcrs);
+  while (i--!=0 && *p!=4) p+=8; /* only non-alternating (a to c) knots */
+  if (i< (n=0)) j= -1;
+  else p= (state->crsbuf)[j]+5;   /* remove twists */
+  while (j>=0){
+   n^=4;
+   k= *(p--)^4;
+   if ((k&2) == 0){
+    c= (state->crsbuf)[*p]+k;
+    i= *c;
+    k= c[1]^4;
+    if ((k&2) != 0 && (state->crsbuf)[i][k]==j){
+      untwst ((short) *p,i,j,n,state);
+      squish (j,state);
+     goto STEP1;
+    }
+   }
+   if (n==0) --j;
+   p-=3;
+  }
+ }
+ g= (state->donlnk)[XCNT]= m= 0;
+ while ((n=j) >= (*(state->tt)=(state->tt)[2]=h= 0)){
+  k=g;
+  do {
+   p= (state->crsbuf)[j]+k;
+   j= *p;
+   k= p[1]^4;
+   i= h;
+   p=(state->clist);
+   while (i--!=0 && *(p++) != j);
+   if (i>=0){
+    j= n;              /* circuit crosses itself */
+    goto NXTCIR; /* skip circuit, wait for a sub-piece that doesn't */
+   }
+   else {
+    ++(state->tt)[k&2];
+    *p= j;
+    (state->t)[h++]= (k&2)^2;
+   }
+  } while (n!=j);
+  if (k != g) --(state->tt)[k&2];
+  else k= -1;
+  if (*(state->tt)==0 || (state->tt)[2]==0){
+    rmcir(h,j,k,state->t,0,state);
+   goto STEP1;
+  }
+  if (tstcir(h,(state->bstlst),dspair,&skflag,state) !=0) goto RESTRT;
+  if (h==3){
+   (state->stc)[m++]=j; /* store vertex of 3 crossing circuit for (state->bstlst) later */
+   (state->stc)[m++]=g;
+   (state->stc)[m++]=k^4;
+  }
+NXTCIR:
+  if (g==0) g= (state->sign)[j];
+  else {
+   --j;
+   g=0;
+  }
+ }
+/* if knot is tiny, store polynomial coefficients and restart a stored knot */
+ if ((state->numcrs)<6){
+  lngi= 1;
+  if ((state->numcrs)==0) --(state->numlps);
+  delpow(state);
+  if ((xpow&512)!=0){
+   lngi= -1;
+   xpow&=511;
+  }
+  if ((state->numcrs)==4){
+   c= *(state->crsbuf);
+   p= c+4;
+   if (*p==*c || c[2]==p[2]){
+    g= -3;
+    if (*p==p[2] && *c==c[2]) g= -4;
+   }
+   else {
+    g= 0;  /* 0 is flag for knot */
+    i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
+    if (i!=16) g=2;     /* flag for 2 links   */
+   }
+  }
+  else if ((state->numcrs)==5){
+   n=10;
+   i=j= 0; /* step through knot, if don't get to end, it's a link */
+   do {
+    p= (state->crsbuf)[i]+j;
+    i= *p;
+    j= p[1]^4;
+    --n;
+   } while (i!=0 || j!=0);
+   if (n>0){
+    i=h= 0; /* 5 crossing 2 link  or twisted 3 link  or tref and 2 links */
+    g=m= 1;      /* or tref + link */
+    k= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
+    if (k>10 && k<30){
+     if (k>20){
+      while ((state->sign)[i]==6) ++i;
+     }
+     else {
+      while ((state->sign)[i]==2) ++i;
+     }
+     if (k==14 || k==26) goto FOURX;
+     c= (state->crsbuf)[i];
+     p= c+4;
+     if (*p==*c || p[2]==c[2]){
+      if (*p==p[2] && *c==c[2]) g=3;
+      else {
+       h=4;
+       if ((state->sign)[i]==6) m= -1;
+      }
+     }
+     else {
+      g=2;
+      j=0;
+      if ((state->sign)[*c]!=(state->sign)[i]) j=4;
+      k= c[j];
+      if ((state->crsbuf)[k][j]!=i){
+       if ((state->sign)[i]==6) m= -1;
+      }
+      else if ((state->sign)[i]==2) m= -1;
+     }
+    }
+    if (g==1){
+     if (h==0 && (state->sign)[i]==2) m= -1;
+     i=j=k= 5;
+     c= state->t;
+     while (j!=0) c[--j]=0;
+     while (k--!=0){
+      j= (state->sign)[k]; /* trefs + circles have fake bigons at all crossings */
+      p= (state->crsbuf)[k]; /* so find all fake bigons */
+      if (p[1]==(j^4) && (*p==p[2] || *p==p[6])) c[k]=c[*p]= 1;
+      if (p[5]==j && p[4]==p[j]) c[k]=c[p[4]]= 1;
+     }
+     while (--i>=0 && c[i]!=0);
+     if (i>=0){
+FOURX: /* found twisted 3 link -- "squish" twist before making polynomial */
+      while (++i!=6) (state->sign)[i-1]= (state->sign)[i];
+      (state->numcrs)=4;
+      g= -3;  /* flag for 4 crossing 3 links */
+     }
+     else {
+      p= *(state->crsbuf);
+      if (n==4 || (n==8 && *p==p[4] && p[2]==p[6])) g=3;
+     }
+    }
+   }
+   else g= -1; /* it's a knot! */
+  }
+  i= (*(state->sign))/2 -2;
+  k= xpow;
+  n=ypow;
+  p= *(state->crsbuf);
+  if ((state->numcrs)==5){
+   if (g<0){ /* knots */
+    if (i>0){
+     if (*p==p[6] && p[2]==p[4] && p[10]==p[12]) g= -2;
+    }
+    else if (*p==p[2] && p[4]==p[6] && p[8]==p[10]) g= -2;
+    if (g== -1){ /* knot five-two */
+      addin(lngi,(short)(n-i*6),k,0,0,state);      /* the flags at the end of addin  */
+      addin(lngi,(short)(n-i*4),k,-1,2,state);     /* let you do two addins at once, */
+      addin((long)-lngi,(short)(n-i*2),k,-1,2,state);    /* for addins with equal ypows.   */
+    }
+    else { /* knot five-one */
+     k+=2;
+     addin((long)(-4*lngi),(short)(n-i*4),k,0,0,state);
+     addin((long)-lngi,(short)(n-i*6),k,-2,-2,state);
+     addin(lngi,(short)(n-i*4),(short)(k+2),3,-4,state);
+    }
+   }
+   else { /* links */
+    if (g==1){ /* trefoil + circle */
+     if (h!=0){
+       addin(lngi,(short)(n-m*3),++k,-1,-2,state);
+       addin((long)(3*lngi),(short)(n-m),k,-1,-2,state);
+       addin(lngi,(short)(n+m),k,-2,-2,state);
+       addin((long)-lngi,(short)(n-m),(short)(k+2),0,0,state);
+     }
+     else {
+       addin((long)-lngi,(short)(n-m*7),--k,0,0,state);
+       addin((long)(-3*lngi),(short)(n-m*5),k,0,0,state);
+      k+=2;
+      addin((long)(3*lngi),(short)(n-m*3),k,0,0,state);
+      addin((long)(2*lngi),(short)(n-m*5),k,0,0,state);
+      addin((long)-lngi,(short)(n-m*3),(short)(k+2),2,-4,state);
+     }
+    }
+    else if (g==2){ /* 2 component link five-one */
+      addin((long)-lngi,(short)(n+m),--k,-2,2,state);
+      addin((long)-lngi,(short)(n-m),k,-1,2,state);
+      addin(lngi,(short)(n+m*3),(short)(k+2),0,0,state);
+      addin((long)-lngi,(short)(n+m),(short)(k+4),0,0,state);
+    }
+    else { /* trefoil and circle + circle */
+     i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
+     m=1;
+     if (i<20){
+      m= -1;
+      i= 40-i;
+     }
+     j= k-2;
+     if (i!=30){
+       addin(lngi,(short)(n-m*4),j,-1,2,state);
+       addin((long)(4*lngi),(short)(n-m*2),j,-1,2,state);
+       addin((long)(5*lngi),n,j,0,0,state);
+       addin((long)-lngi,(short)(n+m*2),k,-2,-2,state);
+      k+=2;
+      addin(lngi,n,k,-4,-2,state);
+      addin(lngi,(short)(n-m*2),k,0,0,state);
+     }
+     else {
+       addin(lngi,(short)(n-m*8),j,0,0,state);
+       addin((long)(5*lngi),(short)(n-m*4),j,0,0,state);
+       addin((long)(2*lngi),(short)(n-m*2),j,0,0,state);
+       addin((long)(-2*lngi),(short)(n-m*6),k,-2,-2,state);
+      k+=2;
+      addin(lngi,(short)(n-m*4),k,-5,-2,state);
+      addin(lngi,(short)(n-m*2),k,-3,-2,state);
+     }
+    }
+   }
+  }
+  else if ((state->numcrs)==4){
+   if (g==0){ /* knot 4-1 */
+     addin((long)-lngi,(short)(n-2),k,0,0,state);
+     addin((long)-lngi,n,k,-1,2,state);
+     addin((long)-lngi,(short)(n+2),k,0,0,state);
+   }
+   else if (g>0){
+    i=1;
+    if (*(state->crsbuf)[*p]==0){
+     if (*(state->sign)==6) i= -1; /* 2 link 4^2-1 */
+     addin((long)-lngi,(short)(n+i*3),--k,-1,2,state);
+     addin((long)-lngi,(short)(n+i*5),k,0,0,state);
+     addin((long)-lngi,(short)(n+i),(short)(k+2),0,0,state);
+    }
+    else {
+     if (*(state->sign)==2) i= -1;
+     addin((long)-lngi,(short)(n-i*5),--k,-1,2,state);
+     addin((long)-lngi,(short)(n-i*3),k,-3,2,state);
+     addin((long)-lngi,(short)(n-i*3),(short)(k+4),0,0,state);
+    }
+   }
+   else if (g== -3){ /* 3 link */
+    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
+    i= 8- j/2;
+    if (i==0){
+      addin((long)-lngi,(short)(n-2),k,-1,-2,state);
+      addin((long)(-2*lngi),n,k,-1,-2,state);
+      addin((long)-lngi,(short)(n+2),k,-1,-2,state);
+      addin(lngi,n,(short)(k+2),0,0,state);
+    }
+    else {
+     j= k-2;
+     addin(lngi,(short)(n-2+i),j,0,0,state);
+     addin((long)(2*lngi),(short)(n+i),j,-1,2,state);
+     addin(lngi,(short)(n+2+i),j,0,0,state);
+     addin(lngi,(short)(n+i/2),(short)(k+2),-2,-2,state);
+    }
+   }
+   else { /* circle + circle  and  circle + circle */
+    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
+    i= 8- j/2;
+    if (i==0){
+      addin(lngi,(short)(n-3),--k,-1,-2,state);
+      addin((long)(3*lngi),(short)(n-1),k,-1,-2,state);
+      addin((long)(3*lngi),(short)(n+1),k,-1,-2,state);
+      addin(lngi,(short)(n+3),k,-1,-2,state);
+     k+=2;
+     addin((long)-lngi,(short)(n-1),k,0,0,state);
+     addin((long)-lngi,(short)(n+1),k,0,0,state);
+    }
+    else {
+     k-=3;
+     addin((long)-lngi,(short)(n-3+i),k,0,0,state);
+     addin((long)(-3*lngi),(short)(n-1+i),k,0,0,state);
+     addin((long)(-3*lngi),(short)(n+1+i),k,0,0,state);
+     addin((long)-lngi,(short)(n+3+i),k,0,0,state);
+     k+=2;
+     addin((long)(2*lngi),(short)(n-2+(i*3)/4),k,0,0,state);
+     addin((long)(4*lngi),(short)(n+(i*3)/4),k,0,0,state);
+     addin((long)(2*lngi),(short)(n+2+(i*3)/4),k,0,0,state);
+     k+=2;
+     addin((long)-lngi,(short)(n-1+i/2),k,0,0,state);
+     addin((long)-lngi,(short)(n+1+i/2),k,0,0,state);
+    }
+   }
+  }
+  else if ((state->numcrs)==3){
+    addin((long)-lngi,(short)(n-i*4),k,0,0,state);
+    addin(lngi,(short)(n-i*2),(short)(k+2),-2,-2,state);
+  }
+  else if ((state->numcrs)!=0){
+    addin(lngi,(short)(n-i),--k,-1,2,state);
+    addin(lngi,(short)(n-i*3),k,0,0,state);
+  }
+  else addin(lngi,n,k,0,0,state);
+  if ((state->notbeg)!=0){
+   (state->numcrs)= (state->buf)[(state->notbeg)-1];
+   (state->numlps)= (state->buf)[(state->notbeg)-4];
+   (state->poslnk)= (state->buf)[(state->notbeg)-5];
+   (state->neglnk)= (state->buf)[(state->notbeg)-6];
+   xpow= (state->buf)[(state->notbeg)-3];
+   ypow= (state->buf)[(state->notbeg)-2];
+   if ((state->buf)[(state->notbeg)-7]!=0) ypow= -ypow;
+   if ((state->buf)[(state->notbeg)-8]!=0) xpow|= 512;
+   (state->notbeg)-= 8+ (state->numcrs)*8;
+   i=0;
+   p= *(state->crsbuf);
+   c= (state->buf)+(state->notbeg);
+   while (i!=(state->numcrs)){
+    j=4;
+    while (j--!=0){
+     *(p++)= *(c++);
+     *(p++)= *(c++)&6;
+    }
+    (state->sign)[i++]= (*(c-7))>>4;
+   }
+   if ((state->numcrs)>chksiz){
+    lp1= *(state->poly);
+    sp= *(state->bilion);
+    lngi= XCNT*XCNT;
+    while (lngi--!=0){
+     if (*lp1> cmpval){
+      if ((*sp)++ == MAXBIL) (state->count)[1]=1;
+      *lp1-= cmpval;
+     }
+     else if (*lp1< -cmpval){
+      if ((*sp)-- == -MAXBIL -1) (state->count)[1]=1;
+      *lp1+= cmpval;
+     }
+     ++lp1;
+     ++sp;
+    }
+    /* if (stats>0){ */
+/*      lseek (stats,(long)(strlen(nbuf)+1),0); */
+/*      lngi=0; */
+/*      i= XCNT-1; */
+/*      while (count[i]==0) --i; */
+/*      while (i!=0){ */
+/*       write (stats,t,ntc((long)(i+1),t),state); */
+/*       write (stats,"     ",5); */
+/*       write (stats,t,ntc(count[i],t)+1,state); */
+/*       lngi+= count[i--]; */
+/*      } */
+/*      write (stats,"\ntotal: ",8); */
+/*      write (stats,t,ntc(lngi,t,state)+1); */
+/*      write (stats,"\nbiggest stacked knots:\n",24); */
+/*      i=12; */
+/*      sp= (state->bstlst); */
+/*      while (i--!=0) sp[i]=0; */
+/*      lngi=notbeg-1; */
+/*      while (lngi>0){ */
+/*       k= (state->buf)[lngi]; */
+/*       sp[++i]= k; */
+/*       lngi-= k*8 + 8; */
+/*       if (i==10) i= -1; */
+/*      } */
+/*      k= 0; */
+/*      while (*sp!=0){ */
+/*       j= ntc((long) *(sp++),t,state); */
+/*       k+=j+1; */
+/*       write (stats,t,j); */
+/*       write (stats," ",1); */
+/*      } */
+/*      write (stats,"                                            ",44-k); */
+/*      write (stats,"\n",1); */
+/*     } */
+   }
+  }
+  else (state->numcrs)=0;
+ }
+ else {
+/* locate fake bigons, 0 branch bigons, and 3 cross circuits for (state->bstlst) */
+  k= (state->numcrs);
+  p= (state->crsbuf)[k]; /* only set k, other crossings will be set in their loops   */
+  c= (state->sign)+k;    /* If a tangle is added to the knot with twists, I can find */
+  while (k--!=0){ /* it sometimes and remove the twists! */
+   n= (state->bstlst)[k];
+   p-=8;
+   j= *--c;
+   i= *p;
+   g= p[4];
+   if (g==p[j]){   /* good fake bigon behind me */
+    if (p[5]!=j){
+     c= (state->crsbuf)[g];  /* wrong! twisted tangle ahead! remove twists! */
+     mrecon (p+(j^4),c+ (p[j+1]^4),state);
+     mrecon (p,c+ (p[5]^4),state);
+     sqush2 (k,g,state);
+     goto STEP1;
+    }
+    if (n>0) n= -4-n;
+    else n+= -8;
+   }
+   if (p[j]==(state->crsbuf)[g][(state->sign)[g]^j^4] && (p[5]&2)!=0 && nopro!=(state->numcrs)){
+    if ((p[j+1]&2)!=0){
+     if (n<0) n-=12;
+     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
+    }
+    else { /* 0 branch has fake bigon */
+     g=1;
+     if (p[5]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
+     if (n<0) n-=g;
+     else if (n>0) n+=g;
+    }
+   }
+   j^=4;
+   if (p[j]==i){  /* good fake bigon ahead of me */
+    if (p[1]!=j){
+     q= (state->crsbuf)[i];  /* wrong! twisted tangle behind! remove twists! */
+     mrecon (p+4,q+ (p[1]^4),state);
+     mrecon (p+ *c,q+ (p[j+1]^4),state);
+     sqush2 (k,i,state);
+     goto STEP1;
+    }
+    if (n>0) n= -4-n;
+    else n+= -8;
+   }
+   else if (p[j^4]==i){  /* bad fake bigon ahead */
+    if (n<0) n-= 8;
+    else if (n<8) n= 8;
+    if ((state->bstlst)[i]<0) (state->bstlst)[i]-=8;     /* mutualize */
+    else if ((state->bstlst)[i]<8) (state->bstlst)[i]=8;
+   }
+   if (p[j]==(state->crsbuf)[i][(state->sign)[i]^j^4] && (p[1]&2)!=0 && nopro!=(state->numcrs)){
+    if ((p[j+1]&2)!=0){
+     if (n<0) n-=12;
+     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
+    }
+    else { /* 0 branch has fake bigon (1 point) */
+     g=1;
+     if (p[1]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
+     if (n<0) n-=g;
+     else if (n>0) n+=g;
+    }
+   }
+   (state->bstlst)[k]=n;
+  }
+  c= (state->stc);
+  i= -8;
+  if (nopro==(state->numcrs)) m=0;
+  while (m>0){
+   m-=3;
+   n= *(c++);
+   g= *(c++);
+   p= (state->crsbuf)[n];  /* busting vertex of 3 cross circuit makes a removeable */
+   sp= (state->bstlst)+n;  /* + or - link on the 0 branch -- free 2 reduction */
+   k= p[*(c++)];
+   j= p[g];
+   if ((p[g|1]&2) != 0) p= (state->crsbuf)[j];
+   else p= (state->crsbuf)[j]+(state->sign)[j];
+   if (*p==k) --i;
+   if (*sp<0) *sp+= i-4;
+   else if (*sp==0) *sp= 4-i;
+   else *sp= i- *sp;
+  }
+  i= nopro= (state->numcrs);
+  k=n= 0;
+  sp= (state->bstlst)+(state->numcrs);
+  while (i--!=0){
+   if (*--sp<n){
+    n= *sp;
+    j=i;
+   }
+   else if (*sp>k){
+    k= *sp;
+    m=i;
+   }
+  }
+  if (n==0){
+   if (k==0){
+    j= dspair[2];
+    nopro=0;
+   }
+   else j=m;
+  }
+  else if (n>-14 && k>12) j=m; /* since exponential growth is 1.41^n */
+  ypow += bust(j,xpow,ypow,state);
+  xpow^=512;
+  ++(state->count)[(state->numcrs)-1];
+ }
+ // This point must be reached fairly often, so we're going to put in the timeout code here.
+ end = clock();
+ cpu_time_used = ((double)(end - start))/CLOCKS_PER_SEC;
+ if (timeout > 0 && cpu_time_used > timeout) {
+   free(outpoly);
+   free(state);
+   return NULL;
+ }
+ if ((state->numcrs)!=0) goto STEP1;
+ goto NEWNOT;
+}
+
+void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state)
+/* short top, vnum, vbrnch;
+   unsigned char *ovundr;
+   int flag; */
+{
+ register short i, j, k, h, m, n;
+ register unsigned char *s, *c, *p;
+ register long *lp1, *lp2;
+ short g;
+ if ((m=vbrnch) >=0){
+  i= vnum;
+  s= (state->crsbuf)[i];
+  k= s[m];
+  g= s[m|1];
+  if (m!=0) c= s+4;
+  else c= s+((state->sign)[i]^4);
+  p= (state->crsbuf)[k]+g;
+  h= *p= *c;
+  n= p[1]= c[1];
+  p= (state->crsbuf)[h]+n;
+  *p= k;
+  p[1]= g;
+  s[6]= s[4]= s[2]= *s= i;
+ }
+ else ++(state->numlps);
+ s= (state->clist);
+ j= -1;
+ while (top-1 > (i=k= ++j)){
+  while (++i<top){
+   if (s[i] < s[k]) k=i;
+  }
+  if (k!=j){    /* order crossings in (state->clist) */
+   i= s[j];
+   s[j]= s[k];
+   s[k]=i;
+   m= ovundr[j];
+   ovundr[j]= ovundr[k];
+   ovundr[k]= m;
+  }
+ }
+      /* relink */
+ m= top;
+ while (m--!=0){
+  i= s[m];
+  g= ovundr[m];
+  k= (state->crsbuf)[i][g];
+  j= (state->crsbuf)[i][g|1];
+  h= (state->crsbuf)[k][j]= (state->crsbuf)[i][g|4];
+  n= (state->crsbuf)[k][j|1]= (state->crsbuf)[i][g|5];
+  (state->crsbuf)[h][n]= k;
+  (state->crsbuf)[h][n|1]= j;
+ }
+ if (flag!=0) return;
+      /* squish crossings out of the list */
+ i= *s;
+ lp1= (long *) (state->crsbuf)[i];
+ lp2=lp1+(state->suplng);
+ p= (state->sign)+i;
+ c=p+1;
+ j= 0;
+ k=1;
+ while (++i!=(state->numcrs)){
+  if (s[k]== i){
+   lp2+= (state->suplng);
+   ++c;
+   if (++k==top) k=0;
+  }
+  else {
+   *(lp1++)= *(lp2++);
+   if ((state->suplng)==2) *(lp1++)= *(lp2++);
+   *(p++)= *(c++);
+  }
+ }
+     /* renumber branch pointers (subtract 1 if the crossing was after) */
+ (state->numcrs)-= top;
+ k= (state->numcrs);
+ c= (state->crsbuf)[k];
+ while (k--!=0){
+  j=5;
+  while (--j!=0){
+   c-=2;
+   i=top;
+   s= (state->clist)+i;
+   while (i--!=0){
+    if (*c> *--s) --*c;
+   }
+  }
+ }
+ return;
+}
+
+int ntc(long i,char *buf,lmpoly_state_t *state)
+{
+ long j;
+ int r;
+ char *p;
+ p=buf;
+ r=0;
+ if (i<0){
+  i= -i;
+  r=1;
+  *(p++)= '-';
+ }
+ if (i>999999999) j=1000000000;
+ else if (i>99999999) j=100000000;
+ else if (i>9999999) j=10000000;
+ else if (i>999999) j=1000000;
+ else if (i>99999) j=100000;
+ else if (i>9999) j=10000;
+ else if (i>999) j=1000;
+ else if (i>99) j=100;
+ else if (i>9) j=10;
+ else j=1;
+ while (j!=0){
+  ++r;
+  *(p++)= (i/j)%10+0x30;
+  j/=10;
+ }
+ *p='\n';
+ return (r);
+}
+
+void delpow(lmpoly_state_t *state)
+{
+ register long *lp1, *lp2, *lsp, *osp;
+ register short i, j, k, m, s, mpos;
+ short numlnk, mpow, u, v, x, y, z, order[2], prslen[2], pstlen[2];
+ lp1=(state->b);
+ if ((state->numlps)<4){
+  if ((state->numlps)==1){
+   *(lp1++)= -1;
+   *lp1= -1;
+  }
+  else if ((state->numlps)==3){
+   *(lp1++)= -1;
+   *(lp1++)= -3;
+   *(lp1++)= -3;
+   *lp1= -1;
+  }
+  else {
+   *(lp1++)= 1;
+   *(lp1++)= 2;
+   *lp1= 1;
+  }
+ }
+ else {
+  *lp1= 1;
+  (state->b)[1]= 4;
+  (state->b)[2]= 6;
+  k= (state->b)[3]= 4;
+  (state->b)[4]= 1;
+  while (k++!=(state->numlps)){
+   j=k;
+   (state->b)[j]=1;
+   while (--j!=0) (state->b)[j]+= (state->b)[j-1];
+  }
+  if (((state->numlps)&1)!=0) while (--k>=0) (state->b)[k]= -(state->b)[k];
+ }
+ *prslen= *pstlen= prslen[1]= pstlen[1]= mpos= mpow= 0;
+ osp= (state->b)+ (state->numlps)+1;
+ if ((state->poslnk)>(state->neglnk)){
+  order[1]= (state->poslnk);
+  *order= (state->neglnk);
+ }
+ else {
+  order[1]= (state->neglnk);
+  *order= (state->poslnk);
+  mpos=2;
+ }
+ z=2;
+ while (z--!=0){
+  numlnk=order[z];
+  mpos^=2;
+  while (numlnk--!=0){
+   m= ++mpow;
+   s=j=k= (state->numlps)+1;
+   u= *pstlen;
+   v= pstlen[1];
+   ++prslen[z];
+   *pstlen= x= *prslen;
+   pstlen[1]= y= prslen[1];
+   lp2= osp;
+   lp1= lp2+ j+ m;
+   if (z==0) lp1+= order[1];
+   osp= lp1;
+   while (j--!=0) *--lp1=0;
+   while (m--!=0){
+    i=j= s;
+    lsp= lp1;
+    if (mpos== (z|2) && y>0) *--lsp=0;
+    if (mpos!=0) lp1+=k;
+    else lp1+=i;
+    while (j--!=0) *--lp1-= *--lp2;
+    lp2+=i;
+    lp1= lsp;
+    *--lp1=0;
+    while (i--!=0) *--lp1= *--lp2;
+    lp1= lsp;
+    lsp= lp2;
+    lp2= lp1-1;
+    j=s;
+    while (j--!=0) *--lp1+= *--lp2;
+    --lp1;
+    if (x-->0) ++k;
+    if (y-->0){
+     ++k;
+     if (mpos==z) *--lp1=0;
+    }
+    if (u-->0) ++s;
+    if (v-->0) ++s;
+    lp2=lsp;
+   }
+  }
+ }
+}
+
+void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state)
+/*short ypow, xpow;
+long kcoeff;
+int mult, reach;*/
+{
+  register long *lp1, *lp2 = NULL, addon, *p; // Added init for lp2, JC.
+  register short i, j, k, numlnk, loops;
+  i= (state->poslnk);
+  k= (state->neglnk);
+  numlnk= i+k;
+  loops= (state->numlps)+ numlnk;
+  ypow+= XCNT-xpow-1+(state->lowx)+ 2*(k-i);
+  xpow-=(state->lowx)+loops;
+  p=(state->b);
+  while (numlnk-->=0){
+    if (reach!=0) lp2= (state->poly)[xpow+reach]+ypow-reach;
+    lp1= (state->poly)[xpow]+ ypow;
+    j= loops;
+    while (j-->=0){
+      addon= kcoeff* *(p++);
+      *lp1+= addon;
+      lp1+=2;
+      if (reach!=0){
+	*lp2+= mult*addon;
+	lp2+=2;
+      }
+    }
+    if (--i<0) --loops;
+    if (--k<0) --loops;
+    else ypow-=2;
+    xpow+=2;
+  }
+}
+
+void untwst(short l,short n,short i,short ex,lmpoly_state_t *state)
+/* short l, n, i, ex; */
+{
+ register unsigned char *pl, *pn;
+ register short g, h, m, k, d, e;
+ short j;
+ j= (state->sign)[i]; /* flip 3 crossing circuits */
+ k= j^ex;
+ ex^=4;
+ m= j^ex;
+ if ((state->sign)[l]-ex==2){
+  g= j^2;
+  h= g^4;
+  j= 6;
+ }
+ else {
+  h= j^2;
+  g= h^4;
+  j= 2;
+ }
+ pl= (state->crsbuf)[l];
+ pn= (state->crsbuf)[n];
+ d= pl[m];
+ e= pl[m|1];
+ pl[m]= pn[g];
+ pl[m|1]= pn[g|1];
+ if (d!=n){
+  pn[g]= d;
+  pn[g|1]= e;
+ }
+ else {
+  pn[g]= l;
+  pn[g|1]= k;
+ }
+ (state->crsbuf)[pl[m]][pl[m|1]]= l;
+ (state->crsbuf)[pl[m]][pl[m|1]|1]= m;
+ d= pn[h];
+ e= pn[h|1];
+ pn[h]= pl[k];
+ pn[h|1]= m= pl[k|1];
+ if (d!=l){
+  pl[k]= d;
+  pl[k|1]= e;
+ }
+ else {
+  pl[k]= n;
+  pl[k|1]= g;
+ }
+ (state->crsbuf)[pn[h]][m]= n;
+ (state->crsbuf)[pn[h]][m|1]= h;
+ h= pn[g|1];
+ (state->crsbuf)[pn[g]][h]= n;
+ (state->crsbuf)[pn[g]][h|1]= g;
+ d= pl[k];
+ e= pl[k|1];
+ (state->crsbuf)[d][e]= l;
+ (state->crsbuf)[d][e|1]= k;
+ pl[ex]= g= (state->crsbuf)[i][ex];
+ pl[ex|1]= h= (state->crsbuf)[i][ex|1];
+ (state->crsbuf)[g][h]= l;
+ (state->crsbuf)[g][h|1]= ex;
+ pn[j]= g= (state->crsbuf)[i][k];
+ pn[j|1]= h= (state->crsbuf)[i][k|1];
+ (state->crsbuf)[g][h]= n;
+ (state->crsbuf)[g][h|1]= j;
+}
+
+int conchk(lmpoly_state_t *state)
+{
+ register short i, j;
+ int vnum, vbrnch, top;
+ char str[20], local_cbuf[XCNT*2];
+ vnum=vbrnch= 0;
+ (state->lowx)= 1;
+ i=top= (state->numcrs)*2;
+ while (i>=0) local_cbuf[i--]=0;
+ i=0;
+ while (i!=top){
+  --(state->lowx);
+  while (local_cbuf[i]==0){
+   local_cbuf[i]=1;
+   i=vnum;
+   j=vbrnch;
+   vnum= (state->crsbuf)[i][j];
+   vbrnch= (state->crsbuf)[i][j|1];
+   if (vnum>=(state->numcrs)){
+    write (1,"error at crossing #",19);
+    write (1,str,ntc((long)(i+1),str,state));
+    write (1,", knot can't have a crossing #",30);
+    write (1,str,ntc((long)(vnum+1),str,state)+1);
+    return (1);
+   }
+   if ((state->crsbuf)[vnum][vbrnch]!=i || ((state->crsbuf)[vnum][vbrnch|1])!=j){
+    write (1,"the possible connection from branch ",36);
+    write (1,str,ntc((long)(i+1),str,state));
+    *str= 'a'+(j>>1);
+    write (1,str,1);
+    write (1," to branch ",11);
+    write (1,str,ntc((long)(vnum+1),str,state));
+    *str= 'a'+(vbrnch>>1);
+    write (1,str,1);
+    write (1," is inconsistent\n",17);
+    return (1);
+   }
+   if (vbrnch==0){
+    write (1,"a-c part of crossing #",22);
+    write (1,str,ntc((long)(vnum+1),str,state));
+    write (1," is oriented backwards\n",23);
+    write (1,"with respect to crossing #",26);
+    write (1,str,ntc((long)(i+1),str,state)+1);
+    return (1);
+   }
+   else if (vbrnch== ((state->sign)[vnum] & 6)){
+    write (1,"b-d part of crossing #",22);
+    write (1,str,ntc((long)(vnum+1),str,state));
+    write (1," is oriented backwards\n",23);
+    write (1,"with respect to crossing #",26);
+    write (1,str,ntc((long)(i+1),str,state)+1);
+    return (1);
+   }
+   i= (vnum<<1) + ((vbrnch>>1)&1);
+   vbrnch^=4;
+  }
+  i=0;
+  while (local_cbuf[i]!=0) ++i;
+  vnum= i/2;
+  if ((i&1)!=0) vbrnch= (state->sign)[vnum] & 6;
+  else vbrnch=0;
+ }
+ return(0);
+}
+
+void mypause(int sig)
+{
+  //(state->restrt)=1;
+ //signal(SIGTERM,pause);  /* pause is now a system function */
+ signal(sig,mypause);
+}
+
+int bust(short tobust,short xpow,short ypow,lmpoly_state_t *state)
+/* short tobust, xpow, ypow; */
+{
+ register unsigned char *fastp, *c;
+ register long *lp1, *lp2;
+ register short i, j, m, k, l, n, *sp;
+ unsigned char *inbuf[XCNT], tsign[XCNT], *bstcrs;
+ int dir;
+ //long lngi;
+ bstcrs= (state->crsbuf)[tobust];
+ fastp=(state->sign);
+ c=tsign;
+ lp2= (long *) *(state->crsbuf);
+ lp1= (long *) ((state->buf)+(state->notbeg));
+ j=0;
+ while (j!=(state->numcrs)){
+  if (j==tobust) ++fastp;
+  *(c++)= *(fastp++);
+  inbuf[j++]= (unsigned char *) lp1;
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+ }
+ fastp= bstcrs;
+ l= (state->sign)[tobust]/2;
+ dir= 2-l;
+ m= fastp[7-l];
+ n= fastp[8-l];
+ j= fastp[3*l-3];
+ k= fastp[3*l-2];
+ inbuf[j][k]= m;
+ inbuf[j][k|1]= n;
+ inbuf[m][n]= j;
+ inbuf[m][n|1]= k;
+ m= fastp[5-l];
+ n= fastp[6-l];
+ j= fastp[3-l];
+ k= fastp[4-l];
+ inbuf[j][k]= m;
+ inbuf[j][k|1]= n;
+ inbuf[m][n]= j;
+ inbuf[m][n|1]= k;
+ k= (state->numcrs)-1;
+     /* squish crossing out of the list (tsign has already been squished) */
+ i= k-tobust;
+ lp1= (long *) inbuf[tobust];
+ lp2=lp1+(state->suplng);
+ while (i--!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+ }
+     /* renumber branch pointers (subtract 1 if the crossing was after) */
+ (state->notbeg)+= (state->numcrs)*8;
+ fastp= *inbuf;
+ while (++i!=k){
+  fastp[1]|= tsign[i]<<4;
+  j=5;
+  while (--j!=0){
+   if (*fastp>=tobust) --*fastp;
+   fastp+=2;
+  }
+ }
+ fastp= (state->buf)+(state->notbeg)-7;
+ *fastp= *(fastp-1)=0;
+ if (ypow+dir<0){
+  *fastp=1;
+  (state->buf)[(state->notbeg)-2]= -ypow-dir;
+ }
+ else (state->buf)[(state->notbeg)-2]= ypow+dir;
+ if ((xpow&512) ==0) (state->buf)[(state->notbeg)-8]=1;
+ *++fastp= (state->neglnk);
+ *++fastp= (state->poslnk);
+ *++fastp= (state->numlps);
+ *++fastp= xpow+1;
+ (state->buf)[(state->notbeg)-1]= i;
+ fastp= bstcrs;
+ sp= (short *) fastp;
+ j= *sp;
+ *sp= sp[l];
+ sp[l]= sp[2];
+ sp[2]= sp[l^2];
+ sp[l^2]= j;
+ (state->sign)[tobust]^=4;
+ (state->crsbuf)[*fastp][fastp[1]|1]=0;
+ (state->crsbuf)[fastp[2]][fastp[3]|1]=2;
+ (state->crsbuf)[fastp[4]][fastp[5]|1]=4;
+ (state->crsbuf)[fastp[6]][fastp[7]|1]=6;
+ return (dir*2);
+}
+
+void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state)
+/*unsigned char *c, *p;*/
+{
+ register short j, k, m, n;
+ register unsigned char *ccb;
+ k= *c;
+ j= c[1];
+ ccb= (state->crsbuf)[k]+j;
+ n= *ccb= *p;
+ m= ccb[1]= p[1];
+ ccb= (state->crsbuf)[n]+m;
+ *ccb= k;
+ ccb[1]= j;
+}
+
+void squish(short sqush,lmpoly_state_t *state)
+/* short sqush; */
+{
+ register short i, j, tosqsh;
+ register unsigned char *p, *c;
+ register long *lp1, *lp2;
+       /* squish crossing out of the list */
+ tosqsh= sqush;
+ j= --(state->numcrs)-tosqsh;
+ lp1= (long *) (state->crsbuf)[tosqsh];
+ lp2=lp1+(state->suplng);
+ p= (state->sign)+tosqsh;
+ c=p+1;
+ while (j--!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+  *(p++)= *(c++);
+ }
+    /* renumber branch pointers (subtract 1 if the crossing was after) */
+ i= (state->numcrs);
+ p= (state->crsbuf)[i];
+ while (i--!=0){
+  j=5;
+  while (--j!=0){
+   p-=2;
+   if (*p>=tosqsh) --*p;
+  }
+ }
+}
+
+void sqush2(short n,short g,lmpoly_state_t *state)
+/* short n, g; */
+{
+ long *lp1, *lp2;
+ register unsigned char *p, *c;
+ register short m, i, j;
+     /* squish crossings out of the list */
+ i= n;
+ m= g;
+ if (m>i){
+  j=m;
+  m=i;
+  i=j;
+ }
+ lp1= (long *) (state->crsbuf)[m];
+ lp2=lp1+(state->suplng);
+ p=(state->sign)+m;
+ c=p+1;
+ j= i-m;
+ while (--j!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+  *(p++)= *(c++);
+ }
+ lp2+=(state->suplng);
+ ++c;
+ j= (state->numcrs)-i;
+ (state->numcrs)-=2;
+ while (--j!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+  *(p++)= *(c++);
+ }
+    /* renumber branch pointers (subtract 1 if the crossing was after) */
+ p= (state->crsbuf)[(state->numcrs)];
+ n= (state->numcrs);
+ while (n--!=0){
+  j=5;
+  while (--j!=0){
+   p-=2;
+   if (*p>=i) --*p;
+   if (*p>=m) --*p;
+  }
+ }
+}
+
+void triple(short m,short i,unsigned char *p,lmpoly_state_t *state)
+/*short m, i;
+  unsigned char *p; */
+{
+ register unsigned char *crsi, *crsk;
+ register short j, d, e, n, h, k;
+ crsi= p;
+ n= m^4;
+ k= crsi[m];
+ crsk= (state->crsbuf)[k];
+ j= crsi[m|1];
+ d= crsk[j]= crsi[n];
+ e= crsk[j|1]= crsi[n|1];
+ (state->crsbuf)[d][e]= k;
+ (state->crsbuf)[d][e|1]= j;
+ j^=4;
+ d= crsi[m]= crsk[j];
+ e= crsi[m|1]= crsk[j|1];
+ (state->crsbuf)[d][e]= i;
+ (state->crsbuf)[d][e|1]= m;
+ crsi[n]= k;
+ crsi[n|1]= j;
+ crsk[j]= i;
+ crsk[j|1]= n;
+ j^=2;
+ n= crsk[j];
+ h= crsk[j|1]^4;
+ d= crsk[j]= (state->crsbuf)[n][h];
+ e= crsk[j|1]= (state->crsbuf)[n][h|1];
+ (state->crsbuf)[d][e]= k;
+ (state->crsbuf)[d][e|1]= j;
+ j^=4;
+ n= crsk[j];
+ h= crsk[j|1]^4;
+ d= crsk[j]= (state->crsbuf)[n][h];
+ e= crsk[j|1]= (state->crsbuf)[n][h|1];
+ (state->crsbuf)[d][e]= k;
+ (state->crsbuf)[d][e|1]= j;
+ j=m^2;
+ n= crsi[j];
+ h= crsi[j|1]^4;
+ d= crsi[j]= (state->crsbuf)[n][h];
+ e= crsi[j|1]= (state->crsbuf)[n][h|1];
+ (state->crsbuf)[d][e]= i;
+ (state->crsbuf)[d][e|1]= j;
+ j^=4;
+ m= crsi[j];
+ h= crsi[j|1]^4;
+ d= crsi[j]= (state->crsbuf)[m][h];
+ e= crsi[j|1]= (state->crsbuf)[m][h|1];
+ (state->crsbuf)[d][e]= i;
+ (state->crsbuf)[d][e|1]= j;
+ sqush2(n,m,state);
+}
+
+int tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state)
+/* short h, *bstlst, *dspair, *skflag; */
+{
+ register short d, g, i, j, m, length, *q, *sp;
+ register unsigned char *p, *tp = NULL, *vp; // Added init for tp. JC
+ short k = 0, n, lngsum, badcrs = 0, vertex, lngpos = 0, i1, i2, i3, j1, j2, j3;
+ sp=q= (state->tt);  /* # of overs and unders were passed in through *(state->tt) and [2] */
+ lngsum= n= 0;
+ if (*(state->tt) > (state->tt)[2]) n=2;
+ else if (*(state->tt) == (state->tt)[2]) lngsum=1;   /* need to test BOTH overs & unders */
+ vp= (state->clist);
+ vertex=h;
+ while (vertex-->0) *(sp++)= *(vp++);   /* make a working copy of (state->clist) */
+ i= h-1;
+ if ((h&1)!=(length=0)) vertex= (state->clist)[i];
+ else {
+  if ((state->donlnk)[XCNT]==0){   /* if my check-off list is now invalid */
+   d= (state->numcrs);             /* re-set it all to 0 */
+   while (d-->0) (state->donlnk)[d]= 0;
+   (state->donlnk)[XCNT]=1;
+  }
+  if (((state->donlnk)[(state->clist)[i]]&((state->t)[i]+2))!=0) return(0);
+ }
+ m=j= h/2;
+ *sp= -1;
+ p=state->t;
+ while (j-->length){
+  i=2;
+  while (*q==1024){
+   ++q;
+   ++p;
+  }
+  d= *q;
+  if (*(p++)==0) i+= (state->sign)[d];
+  g= (state->crsbuf)[d][i&6];
+  sp= ++q;
+  while (*sp>=0 && *sp!=g) ++sp;
+  if (*sp<0) j= -10;
+  else if (*sp==vertex) length= -1;
+  else *sp= 1024;
+ }
+ if (j== -11){
+  d=h;
+  sp=q= (state->tt);
+  vp= (state->clist);
+  while (d-->0) *(sp++)= *(vp++);
+  length=0;
+  p=state->t;
+  while (m-->length){
+   i=6;
+   while (*q==1024){
+    ++q;
+    ++p;
+   }
+   d= *q;
+   if (*(p++)==0) i+= (state->sign)[d];
+   g= (state->crsbuf)[d][i&6];
+   sp= ++q;
+   while (*sp>=0 && *sp!=g) ++sp;
+   if (*sp<0) m= -10;
+   else if (*sp==vertex) length= -1;
+   else *sp= 1024;
+  }
+  j-=m;
+ }
+ if (vertex< (length=lngsum=d=m= 0)){  /* if a link */
+  tp=p= state->t;
+  while ((n^*(p++))==0) ++d;  /* find first bad crossing and move it to the */
+  vp= (state->clist)+d;                /* front so that (state->clist) cannot break a string */
+  --p;                        /* of good crossings in a link from */
+  sp= (state->tt);                     /* (state->clist)[h-1] to (state->clist)[0] */
+  i=m= h-d;
+  while (m-->0){
+   (state->donlnk)[*vp]|= *(p++)+2;  /* also check off all list elements to assure */
+   *(sp++)= *(vp++);        /* this link never comes to tstcir again with */
+  }                         /* a different beginning crossing */
+  m=d;
+  vp= (state->clist);
+  while (m-->0){
+   (state->donlnk)[*vp]|= *tp+2;
+   *(sp++)= *vp;
+   *(vp++)= *(tp++);
+  }
+  p=state->t;
+  while (i-->0) *(p++)= *(tp++);
+  vp= (state->clist);
+  while (d-->0) *(p++)= *(vp++);
+  d=m= 0;
+ }
+ else {
+  sp= (state->tt);
+  vp= (state->clist);
+  i= h;
+  while (i-->0) *(sp++)= *(vp++);
+ }
+ p=state->t;
+ g= h|1;         /* find the longest good string & put in "length" */
+ (state->t)[g]= (state->t)[g-1];   /* also, the longest with only 1 bad crossing in "lngsum" */
+ (state->t)[g-1]= n^2;    /* badcrs is the bad crossing in lngsum */
+ while (++i<g){
+  if ((n^*(p++)) ==0) ++d;
+  else {
+   if (d>=length){
+    length=d;
+    k= i-d;
+   }
+   if (m+d>=lngsum){
+    lngsum= m+d+1;
+    if (d==0) tp= p-3;  /* tp points to a generic good crossing in lngsum */
+    else tp= p-2;
+    if (d!= (lngpos=i)) badcrs= (state->tt)[i-d-1];
+    else badcrs= (state->tt)[i];
+   }
+   m=d;
+   d=0;
+  }
+ }
+ i= h/2;
+ if (vertex>=0 && length>=i){ /* can this circuit untwist its vertex? */
+   if (k==0 && (*(state->t)^*p)!=0) return (skinny(1,h,(short) 0,state));
+   else if (k+length+1==h && ((state->t)[k]^*p)==0) return (skinny(1,h,i,state));
+ }
+ if (j==0 && length>=i){     /* circuit is not skinny, and can be skinnied */
+  if (vertex>= (i1=0) && length==i){
+   m= k+i;
+   *(p-1)= *p;     /* infinite loops happen when the loose strand is shared */
+   d= (state->tt)[m-1];        /* between 2 intersecting circuits -- skflag prevents */
+   while (m>=k){           /* looping, allows me to skinny once per bust!   */
+    vp= (state->crsbuf)[(state->tt)[m]];
+    if ((state->t)[m]!=0) j=2;
+    if (vp[j]==d || vp[j^4]==d) m=i1= -1;  /* possible inf. loop circuit! */
+    else j=0;
+    m-=i;
+    if (k==0) d= (state->tt)[h-1];
+    else d=(state->tt)[k-1];
+   }
+  }
+  if (i1== (j=0)) return (skinny(0,h,k,state)); /* OK to skinny it! */
+  if (*skflag==0){
+   *skflag=1;
+   return (skinny(0,h,k,state)); /* OK to do ONE skinny */
+  }
+ }
+ if (lngsum>=i){
+  if (lngsum == h-2) lngsum=h;   /* a link w/only 2 crossings vanishes! */
+  d= (lngsum-i)*8;  /* and find all the extra benefits of badcrs */
+  if (j==0) ++d;    /* give one point for doing a skinny */
+  if (vertex>=0){
+   if (lngpos==lngsum && (*tp^*p)!=0) d+=4;
+   else if (lngpos+1==h && (*tp^*p)==0) d+=4;
+   else if (lngsum+1==h) d+=4;
+  }
+  if (d==8 && length==lngsum-1) d=0; /* this is really just a fake bigon */
+  if (j==0 && d!=0 && (state->numcrs)+ 2*(i-lngsum)>11) d+=2;
+  if ((k=lngpos-lngsum)!= (m=0) && d!=0){
+   if ((state->t)[k]!=0) m= (state->sign)[(state->tt)[k]];
+   if ((state->crsbuf)[(state->tt)[k]][m] == (state->tt)[k-1]) ++d;
+   if (k!=1 && ((state->t)[k-2]^(state->t)[k-1])!=0) ++d;
+  }
+  if (lngpos+1 != g && d!=0){
+   if ((state->t)[lngpos]!= (m=0)) m= (state->sign)[(state->tt)[lngpos]];
+   if ((state->crsbuf)[(state->tt)[lngpos]][m] == (state->tt)[lngpos-1]) ++d;
+   if (lngpos+2 !=g && ((state->t)[lngpos+1]^(state->t)[lngpos])!=0) ++d;
+  }
+  if (d<6 && j==0){    /* min. one point for making skinny circuits */
+   if (bstlst[badcrs]==0) bstlst[badcrs]= *dspair= 1;
+  }
+  else {
+   *dspair=1;
+   (state->donlnk)[badcrs]=0;  /* from badcrs's perspective, link may be better */
+   if (bstlst[badcrs]<0){
+    if (bstlst[badcrs]> -8-d) bstlst[badcrs]= -8-d;
+   }
+   else if (bstlst[badcrs]<d) bstlst[badcrs]=d;
+  }
+ }
+ else {
+  k= h/4;
+  if (*dspair<k) k= *dspair;
+  m=1;
+  while (m++<k){
+   tp=state->t;
+   *(state->gapsto)=j= 0;
+   d= m+1;
+   while (--d>0){
+    while ((*(tp++)^n) ==0) ++j;
+    (state->gapsto)[d]= j++;
+   }
+   while (j<g){
+    while ((*(tp++)^n) ==0) ++j;
+    length= (j-(state->gapsto)[d]-i)*4 +2;
+    if (length>0 && (m<*dspair || (m== *dspair && length>=dspair[1]))){
+     if (m<*dspair || length>dspair[1]) dspair[3]=0;
+     *dspair=m;
+     dspair[1]= length;
+     length=lngpos= 0;
+     if (d!=m) lngpos= d+1;
+     j1= j;
+     j2= (state->gapsto)[lngpos];
+     h=m;
+     while (h-->0){
+      if (++lngpos>m) lngpos=0;
+      vertex= (state->tt)[j2];
+      j3= (state->gapsto)[lngpos];
+      lngsum= j1-j3;
+      p= (state->crsbuf)[vertex];
+      i1= (state->sign)[vertex];
+      i2= p[i1];
+      i3= p[i1|1];
+      i1^=4;
+      if ((state->crsbuf)[i2][(i3+i1)&6]== p[4]){
+	//if ((p[5]^i3&2) !=0) lngsum= -1 -lngsum;
+	/* According to wikipedia, the & should come first, so this is */
+	if ((p[5]^(i3&2)) !=0) lngsum= -1 -lngsum;
+       else lngsum= -10 -lngsum;
+      }
+      i2= p[i1];
+      i3= p[i1|1];
+      if ((state->crsbuf)[i2][(i3+i1)&6]== *p){
+	if ((p[1]^(i3&2)) !=0){  // The same is true here
+        if (lngsum<0) lngsum-=5;
+        else lngsum= -1 -lngsum;
+       }
+       else if (lngsum<0) lngsum-= 10;
+       else lngsum= -10 -lngsum;
+      }
+      if (lngsum<0){
+       if (length>lngsum){
+        length= lngsum;
+        badcrs= vertex;
+       }
+      }
+      else if (length>=0 && length<lngsum){
+       length= lngsum;
+       badcrs= vertex;
+      }
+      j1=j2;
+      j2=j3;
+     }
+     i1= dspair[3];
+     if (length<0){
+      if (i1>length){
+       dspair[2]= badcrs;
+       dspair[3]= length;
+      }
+     }
+     else if (i1>=0 && i1<length){
+      dspair[2]= badcrs;
+      dspair[3]= length;
+     }
+     k=0;
+    }
+    (state->gapsto)[d--]= j++;
+    if (d<0) d=m;
+   }
+  }
+ }
+ return(0);
+}
+
+int skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state)
+/* short lencir, lngpos;
+   int twist; */
+{
+ register short a, b, g, n, vnum, dir, *c;
+ register unsigned char *p, *q, *cp;
+ short i, j, k, m, last, f, v2; //*sp;
+ vnum= -1;     /* assume circuit is a link */
+ dir= 6;       /* and I will be placing loose strand LEFT of fixed strand */
+ if ((lencir&1)!= (b=0)){
+  vnum= (state->tt)[lencir-1];                /* if not a link */
+  if (((state->t)[lencir-1]=(state->t)[lencir]) ==0) b= (state->sign)[vnum];
+    /* tstcir wrecks (state->t)[lencir-1] on non-links but saves a copy! */
+ }
+ if (vnum>=0){
+  g=vnum;      /* SET DIR PROPERLY!! */
+  while (b>=0){        /* if VERTEX is left of fixed strand, set dir RIGHT */
+   p=(state->crsbuf)[g]+b;  /* there is also a special case if I am untwisting */
+   g= *p;
+   b= *(p+1)^4;  /* walk out from the vertex -- do I run into the circuit? */
+   a=lencir;
+   c= (state->tt);
+   while (a>0 && *(c++)!=g) --a;
+   if (a>0){
+    if (*--c!=vnum){
+     if (b==0) dir= (state->sign)[*c]^4;     /* yes */
+     else dir=b;
+    }
+    else {
+     g= *(state->tt);     /* no -- I ran back into the vertex again */
+     b=6;              /* trace the first left region of the circuit */
+     if (*(state->t)==0) b=(state->sign)[g]-2;
+     n= (state->tt)[lencir-2];  /* does it connect to the other side of the circuit? */
+     while (g!=vnum && g!=n){
+      p= (state->crsbuf)[g]+b;
+      g= *p;
+      b= (*(p+1)+2)&6;
+     }
+     if (g==vnum) dir=2;  /* no -- vertex is left of fixed strand */
+    }
+    b= -1;
+   }
+  }
+  if (twist!=0) dir^=4;
+ }
+ a=j= lencir/2;   /* to move strand, remove it - then reinsert crossings by */
+ p= (state->clist);       /* hand.  Put moveable crossings in (state->clist) & call rmcir */
+ c= (state->tt)+lngpos;
+ while (a-->0) *(p++)= *(c++);
+ --(state->numlps);                   /* rmcir adds a (state->numlps) for fun */
+ rmcir (j,(short) 0,a,(state->t)+lngpos,1,state);
+ i=k= lngpos+j;
+ if (vnum>=0){
+  --lencir;
+  if (lngpos==0 && twist==0) twist= -1;
+ }
+ else if (i==lencir) i=0;
+ if (twist> (m=b= 0) && lngpos!=0){
+  if ((state->t)[lencir]==0) b= (state->sign)[vnum];
+  last= (state->crsbuf)[vnum][b];   /* set last properly if I am untwisting vertex */
+  f= (state->crsbuf)[vnum][b|1];
+ }
+ else {
+  last= (state->tt)[i];  /* set last to automatically hook up one of the bigon ends */
+  f= 4;
+  if ((state->t)[i]==0) f= (state->sign)[last]^4;
+ }
+ if ((state->t)[--k]==0) m=4;
+ while (j-->0){
+  if (i==lencir) i=0;
+  g=dir;
+  vnum= (state->tt)[i];   /* vnum is the crossing on the fixed strand */
+  b= (state->sign)[vnum];
+  if ((state->t)[i++]==0) g+=b;
+  else b^=4;
+  p= (state->crsbuf)[last]+f;  /* reconnect the loose end from the last loop to the */
+  *(p++)= n= (state->tt)[k--];  /* present n */
+  q= (state->crsbuf)[n];   /* n is the crossing on the loose strand - q points to it */
+  (state->sign)[n]= a= b^m;   /* this calculation for (state->sign)[n] is a 2 step trick */
+  if (m==0){
+   a=0;
+   b=dir;
+  }
+  else b^=dir;
+  *p=a;
+  q[a]= last;   /* reconnect last going FOREWARDS along loose strand from n */
+  q[a+1]=f;
+  f= a^4;
+  g&=6;
+  cp= (state->crsbuf)[vnum]+g;
+  v2= *cp;             /* v2 is one step out the dir branch of fixed strand */
+  *(cp++)= last= n;
+  a= *cp;    /* reconnect vnum to n instead (insert n) */
+  *cp=b;
+  p= q+b;
+  *(p++)= vnum;   /* mutual from n to vnum */
+  *p=g;
+  b^=4;
+  p= (state->crsbuf)[v2]+a;  /* insert n from v2 side */
+  *(p++)= n;
+  *p=b;
+  p= q+b;     /* mutual connect from n */
+  *(p++)= v2;
+  *p=a;
+ }
+ if (twist!=0){       /* reconnect the loose end properly */
+  vnum=(state->tt)[lencir];
+  if ((state->t)[lencir]!= (dir=b=0)) dir=b=(state->sign)[vnum];
+  if (twist>0){
+   p= (state->crsbuf)[vnum];
+   if (lngpos==0){
+    n= p[b^4];
+    b= p[b^5];
+    if ((state->t)[lencir]== (dir=0)) dir=(state->sign)[vnum];
+   }
+   else {
+    n= (state->tt)[--i];
+    if ((state->t)[i]== (b=0)) b=(state->sign)[n];
+   }
+   a= p[dir];
+   g= p[dir|1];
+   k= p[dir^5];
+   dir= p[dir^4];
+   (state->crsbuf)[a][g]= dir;
+   (state->crsbuf)[a][g|1]=k;
+   (state->crsbuf)[dir][k]=a;
+   (state->crsbuf)[dir][k|1]=g;
+  }
+  else twist=0;
+ }
+ else if ((state->t)[--i]== (b=0)) b= (state->sign)[(state->tt)[i]];
+ if (twist==0) n= (state->tt)[i];
+ (state->crsbuf)[last][f]= n;
+ (state->crsbuf)[last][f|1]= b;
+ (state->crsbuf)[n][b]= last;
+ (state->crsbuf)[n][b|1]= f;
+ if (twist!=0) squish(vnum,state); /* if I untwisted vertex, now eliminate it */
+ return(1);
+}
-- 
2.43.0


From c5352f3b461bec20dff9f8d032b4316119c1a09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:13 +0000
Subject: [PATCH 029/110] fix: HOMFLY polynomial of a crossing-free diagram
 read outside its buffer and never returned

---
 src/plcTopology.c | 2 +-
 src/pllmpoly02.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index aa5335b..10e8e54 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -194,7 +194,7 @@ char *pdcode_to_ccode(pd_code_t *pd)
 
 {
   char *ccode;
-  int   ccode_size = 256*pd->ncross;
+  int   ccode_size = 256*pd->ncross + 16;
 
   ccode = calloc(ccode_size,sizeof(char)); /* Get room for a big string */
 
diff --git a/src/pllmpoly02.c b/src/pllmpoly02.c
index 7e0aa2e..f319539 100644
--- a/src/pllmpoly02.c
+++ b/src/pllmpoly02.c
@@ -168,7 +168,7 @@ char *plc_lmpoly(char *code, int timeout)
 
 } /* Count newlines */
 
- if (newlinecount == 3) { /* Exactly one crossing */
+ if (newlinecount == 2 || newlinecount == 3) { /* No crossings, or exactly one */
 
    outpoly = calloc(128,sizeof(char));
    sprintf(outpoly,"[[1]]N ");
-- 
2.43.0


From 6d6e6fbd5e6d655712c11c48e5d494fa555c54d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:13 +0000
Subject: [PATCH 030/110] fix: pd_homfly_timeout leaked the crossing code when
 it timed out

---
 src/plcTopology.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 10e8e54..51ba953 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -305,6 +305,7 @@ char *pd_homfly_timeout(pd_code_t *pd, int timeout)
   }
 
   if (homfly_lmpoly == NULL) {
+      free(ccode);
       return NULL; // NULL signifies timeout or other error in plc_lmpoly
   }
 
-- 
2.43.0


From 48d2306a070db585f3e13d773d2b21061aec18b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:13 +0000
Subject: [PATCH 031/110] fix: plc_classify leaked the diagram, and pd_classify
 freed the (shell of the) diagram of its caller

---
 src/plcTopology.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 51ba953..e93c16c 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1550,7 +1550,7 @@ plc_knottype *plc_classify(gsl_rng *rng, plCurve *L, int *nposs)
   if (pdC == NULL) { *nposs = 0; return NULL; } /* For a singular polygon, don't classify. */
 
   ccode = pdcode_to_ccode(pdC);  /* The number of crossings is 2 + the number of \n's in ccode. */
-  free(pdC); /* We're not going to use this again, may as well free it now */
+  pd_code_free(&pdC); /* We're not going to use this again, may as well free it now */
 
   if (ccode == NULL) { *nposs = 0; return NULL; } // Otherwise you WILL segfault
 
@@ -1644,7 +1644,6 @@ plc_knottype *pd_classify(pd_code_t *pdC, int *nposs)
   }
 
   ccode = pdcode_to_ccode(pdC);  /* The number of crossings is 2 + the number of \n's in ccode. */
-  free(pdC); /* We're not going to use this again, may as well free it now */
 
   if (ccode == NULL) { *nposs = 0; return NULL; } // Otherwise you WILL segfault
 
-- 
2.43.0


From a6ca7e19b42616f1fbf1964178a1abda5d8160f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:13 +0000
Subject: [PATCH 032/110] fix: classification could read past the knot table or
 an unterminated polynomial

---
 src/plcTopology.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index e93c16c..ac9271c 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1580,7 +1580,8 @@ plc_knottype *plc_classify(gsl_rng *rng, plCurve *L, int *nposs)
   }
 
   if (homfly == NULL) { *nposs = 0; return NULL; }
-  strncpy(kt.homfly,homfly,MAXHOMFLY);
+  strncpy(kt.homfly,homfly,MAXHOMFLY-1);
+  kt.homfly[MAXHOMFLY-1] = 0;
   free(homfly);
 
   /* Now search for matching knottypes in ktdb */
@@ -1602,7 +1603,7 @@ plc_knottype *plc_classify(gsl_rng *rng, plCurve *L, int *nposs)
   if (strcmp(kt.homfly,mlo->homfly)) { mlo++; }                           // if we don't match (we might if we went to the start of buffer)
   assert(!strcmp(kt.homfly,mlo->homfly));
 
-  for(mhi = ktmatch;!strcmp(kt.homfly,mhi->homfly) && mhi < &(ktdb[KTDBSIZE]);mhi++);
+  for(mhi = ktmatch;!strcmp(kt.homfly,mhi->homfly) && mhi < &(ktdb[KTDBSIZE-1]);mhi++);
   if (strcmp(kt.homfly,mhi->homfly)) { mhi--; }
   assert(!strcmp(kt.homfly,mhi->homfly));
 
@@ -1673,7 +1674,8 @@ plc_knottype *pd_classify(pd_code_t *pdC, int *nposs)
   }
 
   if (homfly == NULL) { *nposs = 0; return NULL; }
-  strncpy(kt.homfly,homfly,MAXHOMFLY);
+  strncpy(kt.homfly,homfly,MAXHOMFLY-1);
+  kt.homfly[MAXHOMFLY-1] = 0;
   free(homfly);
 
   /* Now search for matching knottypes in ktdb */
@@ -1695,7 +1697,7 @@ plc_knottype *pd_classify(pd_code_t *pdC, int *nposs)
   if (strcmp(kt.homfly,mlo->homfly)) { mlo++; }                           // if we don't match (we might if we went to the start of buffer)
   assert(!strcmp(kt.homfly,mlo->homfly));
 
-  for(mhi = ktmatch;!strcmp(kt.homfly,mhi->homfly) && mhi < &(ktdb[KTDBSIZE]);mhi++);
+  for(mhi = ktmatch;!strcmp(kt.homfly,mhi->homfly) && mhi < &(ktdb[KTDBSIZE-1]);mhi++);
   if (strcmp(kt.homfly,mhi->homfly)) { mhi--; }
   assert(!strcmp(kt.homfly,mhi->homfly));
 
-- 
2.43.0


From 7451d7378756c0b515073369fdeea29c178fb45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:13 +0000
Subject: [PATCH 033/110] fix: a failed attempt to project a curve leaked
 memory

---
 src/plcTopology.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index ac9271c..915c128 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -670,6 +670,7 @@ plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
     if (safe_radius < 1e-16) {
 
       fprintf(stderr,"plc_ccode: plCurve is numerically singular. Can't compute projection.\n");
+      plc_free(Lcopy);
       return NULL;
 
     }
@@ -744,6 +745,7 @@ plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
   if (projection_clean == false) {
 
     fprintf(stderr,"plc_ccode: Couldn't resolve singularities in %d passes. plCurve is probably singular.\n",attempt_counter);
+    plc_free(Lcopy);
     return NULL;
 
   }
@@ -869,6 +871,7 @@ crossing_container *findcrossings(plCurve *L) {
 	      fprintf(stderr,"plc_ccode: Unexpected error computing "
 		      "crossings for (supposedly) generic L.\n");
 	      crossing_container_free(&cc);
+	      plc_free(Lproj);
 	      return NULL;
 
 	    }
-- 
2.43.0


From 78dd97ebe1fc759e44a69a40b2751b57e5069e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:13 +0000
Subject: [PATCH 034/110] fix: pd_code_from_plCurve repeated a failed
 projection without rotating the curve

---
 src/plcTopology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 915c128..627eec3 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1360,7 +1360,7 @@ pd_code_t *pd_code_from_plCurve(gsl_rng *rng, plCurve *L) {
 
     /* Step 2. Perturb to make it crossing-clean. */
 
-    plCurve *genericL = make_zprojection_generic(rng,L);
+    plCurve *genericL = make_zprojection_generic(rng,(attempt_number == 0) ? L : workingL);
 
     if (pd_code_from_plCurve_verbose) {
 
-- 
2.43.0


From b275d566200832f2464adcd9ca61a4f0d731ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:37 +0000
Subject: [PATCH 035/110] fix: plc_read_knottype freed a moved pointer, overran
 its tables and never set the number of factors

---
 src/plcTopology.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 627eec3..a5a9789 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1729,15 +1729,24 @@ void plc_write_knottype(FILE *out, plc_knottype kt)
 plc_knottype *plc_read_knottype(const char *kt)
 /* Reads the knot type as a human would write it: 3_1#5_2, for example. Returns NULL if it can't parse the knot_type. */
 {
-  char *primecomp;
+  char *primecomp,*rest;
   plc_knottype *working_kt;
   int pc = 0;
   char *working_copy = calloc(strlen(kt)+10,sizeof(char));
   strcpy(working_copy,kt);
-  int maxind[19] = {0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
+  int maxind[20] = {1, 0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
 
   working_kt = calloc(1,sizeof(plc_knottype));
-  while((primecomp = strtok_r(working_copy,"#",&working_copy)) != NULL) {
+
+  for(primecomp = strtok_r(working_copy,"#",&rest);primecomp != NULL;primecomp = strtok_r(NULL,"#",&rest)) {
+
+    if (pc == MAXPRIMEFACTORS) {
+      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
+	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
+      free(working_copy);
+      free(working_kt);
+      return NULL;
+    }
 
     if (sscanf(primecomp,"%d_%d",&(working_kt->cr[pc]),&(working_kt->ind[pc])) != 2) {
       fprintf(stderr,"plc_read_knottype: Could not parse prime component %s in knot type %s.\n",primecomp,kt);
@@ -1762,17 +1771,10 @@ plc_knottype *plc_read_knottype(const char *kt)
     }
 
     pc++;
-
-    if (pc == MAXPRIMEFACTORS) {
-      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
-	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
-      free(working_copy);
-      free(working_kt);
-
-    }
     
   }
 
+  working_kt->nf = pc;
   free(working_copy);
   return working_kt;
 }
-- 
2.43.0


From 026d3e3c5e834dc9c0fc185a7ddfda676612938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:48 +0000
Subject: [PATCH 036/110] fix: a bigon elimination that splits the diagram
 leaked memory

---
 src/pd_crossingmoves.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 6b6f72f..e3e410f 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -149,6 +149,7 @@ void pd_compacting_copy(void *source, size_t obj_size, size_t nobj,
     for(i=0;i<nobj;i++) {
       tidx[i] = PD_UNSET_IDX;
     }
+    free(uniquedeletions);
     return;
   }
 
@@ -1710,6 +1711,8 @@ v         |                     |         ^
         /* Then we do some housecleaning. */
 
         free(compstate);
+        free(A_crossings); free(B_crossings);
+        free(A_edges); free(B_edges);
         free(new_crossing_idx_A); free(new_crossing_idx_B);
         free(new_edge_idx_A); free(new_edge_idx_B);
 
-- 
2.43.0


From 25d948926df8eec11752a08eeca3145a60f4f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:48 +0000
Subject: [PATCH 037/110] fix: pd_connect_sum crashed when a summand has no
 crossings

---
 src/pd_crossingmoves.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index e3e410f..4ada801 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -2301,6 +2301,17 @@ pd_code_t *pd_connect_sum(pd_code_t *pdA, pd_idx_t edgeA,
   pd_check_edge(SRCLOC,pdA,edgeA);
   pd_check_edge(SRCLOC,pdB,edgeB);
 
+  /* Summing with a 0-crossing diagram, whose only edge meets no
+     crossing, doesn't change the other diagram. */
+
+  if (pdA->ncross == 0 || pdB->ncross == 0) {
+
+    pd_code_t *sum = pd_copy(pdA->ncross == 0 ? pdB : pdA);
+    sum->uid = 0;
+    return sum;
+
+  }
+
   /* The algorithm here is straightforward; allocate space,
      copy crossings and edges, then reconnect edges. */
 
-- 
2.43.0


From 2bafeb203a95a02663e927c73403503d9bfb7932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:14 +0000
Subject: [PATCH 038/110] fix: geyer_ips_value wrote past the Gamma buffer for
 fewer than 4 samples and left ok unset for none

---
 src/geyer_estimators.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index 511330e..7e749c7 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -127,9 +127,10 @@ double ips_sigma_estimator_with_gammas(double *zero_meaned_data, int m,
   if (Gammas != NULL) { 
     
     *Gammas = internal_Gammas;
-    *N = k-2; 
+    *N = done_flag ? k-2 : k-1; 
     /* Remember that k got incremented on the way out of the loop when we detected the first negative,
-       AND that we wanted to throw that one out. */
+       AND that we wanted to throw that one out. If we ran out of data before finding a negative one,
+       there is nothing to throw out. */
     
   } else { 
     
@@ -680,6 +681,7 @@ double geyer_ips_value(geyer_ips_t *gips,double *error,bool *ok)
   if (gips->samples == 0) { 
 
     if (error != NULL) { *error = 0; } 
+    *ok = true;
     return 0;
 
   }
-- 
2.43.0


From 76d2a265115af95c03cbf96f84301bcb805a34af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:14 +0000
Subject: [PATCH 039/110] fix: plc_loop_closure read the closing arc at the
 index of the open component

---
 src/plcRandomPolygon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 13ab911..cf7bc3f 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1239,7 +1239,7 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
   assert(newVerts != NULL);
 
   for(vt=0;vt<openL->cp[cp].nv;vt++) { newVerts[vt] = openL->cp[cp].vt[vt]; }
-  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[cp].vt[ca_vt]; }
+  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[0].vt[ca_vt]; }
 
   assert(ca_vt == closureArc->cp[0].nv-1 && vt == nEdges); /* These should finish at the same time */
 
-- 
2.43.0


From 615faba71e8a70b60a65389aa9705a76ee3cc366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:14 +0000
Subject: [PATCH 040/110] fix: plc_random_equilateral_closed_polygon gave up
 (and aborted) for allowed large n after 10000 trials

---
 src/plcRandomPolygon.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index cf7bc3f..1d0e847 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -929,15 +929,15 @@ plCurve *plc_random_equilateral_closed_polygon(gsl_rng *rng,int n)
 
       safety_check++;
 
-    } while (!distances_ok && safety_check < 10000);
+    } while (!distances_ok && safety_check < 10000000);
 
     /* Now we've generated distances up to d[n-3] without violating
        a sum condition. We still have to check that 0 <= d[n-3] <= 2,
        so that we can set d[n-2]=1 without violating an inequality. */
 
-  } while((d[n-3] < 0 || d[n-3] > 2) && safety_check < 10000);
+  } while((d[n-3] < 0 || d[n-3] > 2) && safety_check < 10000000);
 
-  assert(safety_check < 10000);
+  assert(safety_check < 10000000);
 
   /* We can now set the last distance to be 1.0 */
 
-- 
2.43.0


From e4343f2376afa82f4f567276db5e9974a983258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:14 +0000
Subject: [PATCH 041/110] fix: random equilateral polygons had NaN vertices
 when rounding made a triangle slightly impossible

---
 src/plcRandomPolygon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 1d0e847..3d5297c 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -827,7 +827,7 @@ plCurve *fantriangulation_action_angle(int n,double *theta, double *d)
        the history of them, but we will need the current one. */
 
     double cos_alpha = (d[i-1]*d[i-1] + d[i]*d[i] - 1.0)/(2.0*d[i-1]*d[i]);
-    double sin_alpha = sqrt(1 - cos_alpha*cos_alpha);
+    double sin_alpha = sqrt(fmax(1 - cos_alpha*cos_alpha,0.0)); /* Rounding can make |cos_alpha| > 1 */
 
     /*
 
-- 
2.43.0


From 6e41f443654aa85eac8ad9a5bef898fa1f56d2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:14 +0000
Subject: [PATCH 042/110] fix: plc_is_sap called every curve self-avoiding

---
 src/plcRandomSap.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/plcRandomSap.c b/src/plcRandomSap.c
index 2894ed3..001f59b 100644
--- a/src/plcRandomSap.c
+++ b/src/plcRandomSap.c
@@ -167,9 +167,9 @@ bool plc_is_sap_internal(plCurve *L, bool verbose) {
 		printf("plc_is_sap: Squared distance between L->cp[%d].vt[%d] and L->cp[%d].vt[%d] is %g < %g\n",
 		       cp1,vt1,cp2,vt2,plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]),1.0-1e-10);
 		       
-		return false;
-
 	      }
+
+	      return false;
 	      
 	    }
 	    
@@ -183,14 +183,18 @@ bool plc_is_sap_internal(plCurve *L, bool verbose) {
 	  
 	  for(vt2=0;vt2<L->cp[cp2].nv;vt2++) {
 	    
-	     if (verbose) {
+	    if (plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]) < 1.0-1e-10) {
+
+	      if (verbose) {
 
 		printf("plc_is_sap: Squared distance between L->cp[%d].vt[%d] and L->cp[%d].vt[%d] is %g < %g\n",
 		       cp1,vt1,cp2,vt2,plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]),1.0-1e-10);
 		       
-		return false;
+	      }
 
-	     }
+	      return false;
+
+	    }
 
 	  }
 
-- 
2.43.0


From 764bac2ac0ca19d68a395cf80f3652db7267a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:17 +0000
Subject: [PATCH 043/110] fix: hit-and-run steps could land exactly on the
 boundary of the moment polytope, where no polygon can be built

---
 src/plcToricSymplectic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index fc1202b..54ce76a 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -508,7 +508,8 @@ void     tsmcmc_moment_polytope_step(gsl_rng *rng,tsmcmc_triangulation_t T,
 
   tsmcmc_moment_polytope_worker(T,edge_lengths,diagonal_lengths,dv,0,&tupper,&tlower);
   double t;
-  t = gsl_ran_flat(rng,tlower,tupper);
+  double u = gsl_rng_uniform_pos(rng); /* never 0, so that t is never exactly on the boundary */
+  t = tlower*(1-u) + tupper*u;
 
   int i;
   //cblas_daxpy(T.ndiags,t,dv,1,diagonal_lengths,1);
@@ -592,7 +593,8 @@ void     tsmcmc_confined_moment_polytope_step(gsl_rng *rng,tsmcmc_triangulation_
 
   }
 
-  t = gsl_ran_flat(rng,tlower,tupper);
+  double u = gsl_rng_uniform_pos(rng); /* never 0, so that t is never exactly on the boundary */
+  t = tlower*(1-u) + tupper*u;
 
   for(i=0;i<T.ndiags;i++) {
     diagonal_lengths[i] += t*dv[i];
-- 
2.43.0


From 11a92c31d346f855af8f9616fcdc6564be8c4745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:38 +0000
Subject: [PATCH 044/110] fix: logging a polygon of many edges (or a long log
 file name) overflowed a fixed buffer

---
 src/plcToricSymplectic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index 54ce76a..bc3ec30 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1052,7 +1052,7 @@ char    *tsmcmc_run_stats_MathematicaForm(tsmcmc_run_stats run_stats)
 char    *tsmcmc_run_params_MathematicaForm(tsmcmc_run_parameters run_params)
 
 {
-  char *ret = calloc(1024,sizeof(char));
+  char *ret = calloc(1024+strlen(run_params.logfile_name),sizeof(char));
   assert(ret != NULL);
 
   sprintf(ret,
@@ -1073,7 +1073,7 @@ char    *tsmcmc_run_params_MathematicaForm(tsmcmc_run_parameters run_params)
 char    *tsmcmc_configuration_MathematicaForm(tsmcmc_triangulation_t T,double *edge_lengths,double *diagonal_lengths,double *dihedral_angles)
 {
 
-  char *ret = calloc(2048,sizeof(char));
+  char *ret = calloc(256 + 16*(T.nedges+2*T.ndiags),sizeof(char)); /* %g and a comma take at most 14 chars */
   assert(ret != NULL);
 
   sprintf(ret,
-- 
2.43.0


From 8dd8d5108f36a9abc4c2d1f4de7ce12be73f7251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:38 +0000
Subject: [PATCH 045/110] fix: expectation runs leaked the logged configuration
 at every logged step

---
 src/plcToricSymplectic.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index bc3ec30..7f8c6b6 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1208,6 +1208,7 @@ double   tsmcmc_equilateral_expectation(gsl_rng *rng,double integrand(plCurve *L
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
 		i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
 	fflush(run_params.logfile);
+	free(configuration);
     }
 
   }
@@ -1528,6 +1529,7 @@ double   tsmcmc_fixed_ftc_expectation(gsl_rng *rng,double integrand(plCurve *L,
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
 		i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
 	fflush(run_params.logfile);
+	free(configuration);
     }
 
   }
-- 
2.43.0


From eaa92a7bc22be2583e95cfa0155bdd6bbfc7c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:19 +0000
Subject: [PATCH 046/110] fix: a step direction of small length ignored the
 walls of the moment polytope

---
 src/plcToricSymplectic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index 7f8c6b6..4a1a70c 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -439,7 +439,9 @@ void     tsmcmc_apply_triangle_inequality(int chordA,chordtype_t typeA,
 
   }
 
-  if (fabs(denom) < 1e-8) { /* This is a degenerate case, just return. */
+  if (num > 0) { num = 0; } /* We can be outside only by rounding; don't move t away from 0. */
+
+  if (denom == 0) { /* This is a degenerate case, just return. */
 
     return;
 
@@ -575,7 +577,7 @@ void     tsmcmc_confined_moment_polytope_step(gsl_rng *rng,tsmcmc_triangulation_
 
   for(i=0;i<T.ndiags;i++) {
 
-    if (fabs(dv[i]) > 1e-8) { /* It's entirely possible to get a dv equal to zero, but it shouldn't affect tupper or tlower. */
+    if (dv[i] != 0) { /* It's entirely possible to get a dv equal to zero, but it shouldn't affect tupper or tlower. */
 
       if (dv[i] > 0) {
 
-- 
2.43.0


From f2e63bf5d3a953edc049978ba954376077651140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:19 +0000
Subject: [PATCH 047/110] fix: embedding a (nearly) flat triangle gave NaN
 vertices when rounding left the range of acos

---
 src/plcToricSymplecticTriangulation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 8ea9482..c942c29 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -646,7 +646,7 @@ bool     tsmcmc_triangle_from_edgelengths(plc_vector *a, plc_vector *b, plc_vect
   
   double alpha;
 
-  alpha = acos((B*B + C*C - A*A)/(2.0*B*C));
+  alpha = acos(fmax(-1.0,fmin(1.0,(B*B + C*C - A*A)/(2.0*B*C)))); /* Rounding can leave [-1,1] */
 
   *a = plc_build_vect(0,0,0);
   *b = plc_build_vect(C,0,0);
-- 
2.43.0


From 5446945a16d8999ef719393d124c9a8451791af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:45 +0000
Subject: [PATCH 048/110] fix: embedding a polygon with a zero length diagonal
 gave NaN vertices

---
 src/plcToricSymplecticTriangulation.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index c942c29..6d7be90 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -697,9 +697,12 @@ bool tsmcmc_embed_polygon_worker(plCurve *L,tsmcmc_triangulation_t T,
   frame[1] = plc_normalize_vect(frame[1],&ok);
   double PI = 3.141592653589793;
 
-  if (!ok) {
+  if (!ok) { /* The parent edge has no direction; any unit vector in the parent plane will do. */
 
     current_normal = parent_normal;
+    frame[1] = plc_normalize_vect(plc_cross_prod(parent_normal,
+						 fabs(parent_normal.c[0]) < 0.6 ? plc_build_vect(1,0,0) : plc_build_vect(0,1,0)),
+				  NULL);
 
   } else { /* Use the dihedral data. */
 
-- 
2.43.0


From 0316866a3c51cd4c0a4c285622c888f701a05ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:59 +0000
Subject: [PATCH 049/110] fix: a flat triangle could not be embedded when its
 sides violate the triangle inequality only by rounding

---
 src/plcToricSymplecticTriangulation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 6d7be90..76186e3 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -600,7 +600,8 @@ bool     tsmcmc_triangle_from_edgelengths(plc_vector *a, plc_vector *b, plc_vect
      the triangle. */
 
   if (A < 0 || B < 0 || C < 0) { return false; }
-  if (A + B < C || B + C < A || C + A < B) { return false; }
+  double tol = 1e-12*(A + B + C); /* A flat triangle may violate the inequalities by rounding. */
+  if (A + B < C - tol || B + C < A - tol || C + A < B - tol) { return false; }
 
   /* Now we need to worry about various special cases. */
 
-- 
2.43.0


From 45ed233a82224a94ee2db754d5ff6660b89830e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:59 +0000
Subject: [PATCH 050/110] fix: the buffered estimator reported a NaN error
 where the plain one falls back to the variance

---
 src/geyer_estimators.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index 7e749c7..625a0cc 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -796,6 +796,7 @@ double geyer_ips_value(geyer_ips_t *gips,double *error,bool *ok)
 
   gips->sigma = -littlegamma[0]; 
   for(i=0;i<gips->N;i++) { gips->sigma += 2*gips->Gamma[i]; }
+  if (gips->sigma < 0) { gips->sigma = littlegamma[0]; } /* Far from convergence: do as ips_sigma_estimator does. */
   gips->sigma = sqrt(gips->sigma); 
   
   *error = 1.96 * gips->sigma / sqrt(gips->samples);
-- 
2.43.0


From d88ab3b51088b0d8999720fde015fa5d37747568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:43 +0000
Subject: [PATCH 051/110] fix: the pdstor tools reported success when an input
 file could not be opened

---
 src/computepd.c  | 2 +-
 src/connectsum.c | 2 +-
 src/filterpd.c   | 2 +-
 src/joinpd.c     | 4 ++--
 src/splitpd.c    | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/computepd.c b/src/computepd.c
index d91a997..1df9832 100644
--- a/src/computepd.c
+++ b/src/computepd.c
@@ -154,7 +154,7 @@ int main(int argc,char *argv[])
 	    "\t  file = %s, \n"
 	    "usage: \n\n",file->filename[0]);
      arg_print_glossary(stdout, argtable," %-25s %s\n");
-     exit(0);
+     exit(1);
 
   }
   
diff --git a/src/connectsum.c b/src/connectsum.c
index d41c7df..6f87b51 100644
--- a/src/connectsum.c
+++ b/src/connectsum.c
@@ -147,7 +147,7 @@ int main(int argc,char *argv[])
 	    "\t bfile = %s, \n"
 	    "usage: \n\n",Afile->filename[0],Bfile->filename[0]);
      arg_print_glossary(stdout, argtable," %-25s %s\n");
-     exit(0);
+     exit(1);
 
   }
   
diff --git a/src/filterpd.c b/src/filterpd.c
index 64e9faa..1298ba0 100644
--- a/src/filterpd.c
+++ b/src/filterpd.c
@@ -131,7 +131,7 @@ int main(int argc,char *argv[])
 	    "\t  file = %s, \n"
 	    "usage: \n\n",file->filename[0]);
      arg_print_glossary(stdout, argtable," %-25s %s\n");
-     exit(0);
+     exit(1);
 
   }
   
diff --git a/src/joinpd.c b/src/joinpd.c
index f3ebfaa..05d8ee5 100644
--- a/src/joinpd.c
+++ b/src/joinpd.c
@@ -175,7 +175,7 @@ int main(int argc,char *argv[])
 	   "Couldn't open first file %s \n"	   
 	   "usage: \n\n",relstring,files->filename[0]);
     arg_print_glossary(stdout, argtable," %-25s %s\n");
-    exit(0);
+    exit(1);
     
   }
 
@@ -212,7 +212,7 @@ int main(int argc,char *argv[])
 	     "Couldn't open file %d with name %s\n"
 	     "usage: \n\n",i,files->filename[i]);
       arg_print_glossary(stdout, argtable," %-25s %s\n");
-      exit(0);
+      exit(1);
 
     }
     
diff --git a/src/splitpd.c b/src/splitpd.c
index 4da1ea9..d8c7049 100644
--- a/src/splitpd.c
+++ b/src/splitpd.c
@@ -143,7 +143,7 @@ int main(int argc,char *argv[])
 	    "\t  file = %s, \n"
 	    "usage: \n\n",file->filename[0]);
      arg_print_glossary(stdout, argtable," %-25s %s\n");
-     exit(0);
+     exit(1);
 
   }
   
-- 
2.43.0


From 3b03467a3fa5da448690fc6009ee70cd0098b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:13 +0000
Subject: [PATCH 052/110] fix: the command line tools reported success when
 their output could not be written

---
 src/carbonizepd.c | 12 ++++++++++--
 src/computepd.c   |  8 +++++++-
 src/connectsum.c  |  9 ++++++++-
 src/filterpd.c    |  9 ++++++++-
 src/joinpd.c      | 16 +++++++++++++++-
 src/plcrwalk.c    | 10 ++++++++--
 src/splitpd.c     | 42 ++++++++++++++++++++++++++++++++----------
 7 files changed, 88 insertions(+), 18 deletions(-)

diff --git a/src/carbonizepd.c b/src/carbonizepd.c
index d0dbc4a..ea693cb 100644
--- a/src/carbonizepd.c
+++ b/src/carbonizepd.c
@@ -913,9 +913,17 @@ int main(int argc,char *argv[]) {
     }
     printf("done (wrote %d functions).\n",j);
 
-    if (outfile->count == 0) { 
+    if (outfile->count == 0 || i == infile->count-1) { 
+
       printf("closing output file %s...",ofname);
-      fclose(out);
+
+      if (ferror(out) || fclose(out) != 0) {
+
+	printf("fail (couldn't write all of the output)\n");
+	exit(1);
+
+      }
+
     }
 
   }
diff --git a/src/computepd.c b/src/computepd.c
index 1df9832..0170ba3 100644
--- a/src/computepd.c
+++ b/src/computepd.c
@@ -334,7 +334,13 @@ int main(int argc,char *argv[])
 	 elts,cpu_time_used);
   fflush(stdout);
 
-  fclose(of);
+  if (ferror(of) || fclose(of) != 0) {
+
+    printf("computepd: Couldn't write all of the results to outfile = %s\n",outfile->filename[0]);
+    exit(1);
+
+  }
+
   pd_free_pdstor(&pdstor);
     
   arg_freetable(argtable,sizeof(argtable)/sizeof(argtable[0]));
diff --git a/src/connectsum.c b/src/connectsum.c
index 6f87b51..73e33fe 100644
--- a/src/connectsum.c
+++ b/src/connectsum.c
@@ -318,7 +318,14 @@ int main(int argc,char *argv[])
   assert(out != NULL);
   
   pd_write_pdstor(out,cstor);
-  fclose(out);
+
+  if (ferror(out) || fclose(out) != 0) {
+
+    printf("\nconnectsum: Couldn't write all of the pdstor to %s\n",outfile->filename[0]);
+    exit(1);
+
+  }
+
   printf("done\n");
       
   pd_free_pdstor(&astor);
diff --git a/src/filterpd.c b/src/filterpd.c
index 1298ba0..425e810 100644
--- a/src/filterpd.c
+++ b/src/filterpd.c
@@ -217,7 +217,14 @@ int main(int argc,char *argv[])
   assert(out != NULL);
   
   pd_write_pdstor(out,outstor);
-  fclose(out);
+
+  if (ferror(out) || fclose(out) != 0) {
+
+    printf("\nfilterpd: Couldn't write all of the pdstor to %s\n",outfile->filename[0]);
+    exit(1);
+
+  }
+
   printf("done\n");
       
   pd_free_pdstor(&pdstor);
diff --git a/src/joinpd.c b/src/joinpd.c
index 05d8ee5..3a957a8 100644
--- a/src/joinpd.c
+++ b/src/joinpd.c
@@ -283,8 +283,22 @@ int main(int argc,char *argv[])
   
   printf("joinpd: writing new pdstor to %s...",outfile->filename[0]);
   out = fopen(outfile->filename[0],"w");
+
+  if (out == NULL) {
+
+    printf("\njoinpd: Couldn't open output file %s\n",outfile->filename[0]);
+    exit(1);
+
+  }
+
   pd_write_pdstor(out,astor);
-  fclose(out);
+
+  if (ferror(out) || fclose(out) != 0) {
+
+    printf("\njoinpd: Couldn't write all of the pdstor to %s\n",outfile->filename[0]);
+    exit(1);
+
+  }
 
   printf("done\n");
   
diff --git a/src/plcrwalk.c b/src/plcrwalk.c
index 3948b13..fe6b853 100644
--- a/src/plcrwalk.c
+++ b/src/plcrwalk.c
@@ -591,7 +591,10 @@ int main(int argc, char *argv[]) {
 
 	  }
 
-	  fclose(sample_outfile);
+	  if (ferror(sample_outfile) || fclose(sample_outfile) != 0) {
+	    fprintf(stderr, "randompolygon: Couldn't write all of %s.\n", filename);
+	    exit(1);
+	  }
 
 	} else if (runof == ChordLength) {
 
@@ -616,7 +619,10 @@ int main(int argc, char *argv[]) {
 	 samps / cpu_time_used);
 
   if (summaryfile != NULL) {
-    fclose(summaryfile);
+    if (ferror(summaryfile) || fclose(summaryfile) != 0) {
+      fprintf(stderr, "randompolygon: Couldn't write all of summary file %s.\n", outfile_name);
+      exit(1);
+    }
     summaryfile = NULL;
   }
 
diff --git a/src/splitpd.c b/src/splitpd.c
index d8c7049..1edd7a1 100644
--- a/src/splitpd.c
+++ b/src/splitpd.c
@@ -57,6 +57,36 @@ struct arg_end  *helpEnd;
 
 int VERBOSE;
 
+void write_piece(const char *basename,unsigned int subpdnum,pd_stor_t *subpd)
+
+/* Write subpd to the file basename-<subpdnum>.pdstor. Exits on failure. */
+
+{
+  char *fname = malloc(strlen(basename) + 64);
+  assert(fname != NULL);
+  sprintf(fname,"%s-%05u.pdstor",basename,subpdnum);
+
+  FILE *outfile = fopen(fname,"w");
+
+  if (outfile == NULL) {
+
+    printf("\nsplitpd: Couldn't open output file %s\n",fname);
+    exit(1);
+
+  }
+
+  pd_write_pdstor(outfile,subpd);
+
+  if (ferror(outfile) || fclose(outfile) != 0) {
+
+    printf("\nsplitpd: Couldn't write all of the pdstor to %s\n",fname);
+    exit(1);
+
+  }
+
+  free(fname);
+}
+
 int main(int argc,char *argv[])
 {
   int            nerrors;
@@ -220,12 +250,8 @@ int main(int argc,char *argv[])
 
     if (subpdelt == subpdsize) {
 
-      char fname[256];
-      sprintf(fname,"%s-%05d.pdstor",basename,subpdnum);
-      FILE *outfile = fopen(fname,"w");
-      pd_write_pdstor(outfile,subpd);
+      write_piece(basename,subpdnum,subpd);
       pd_free_pdstor(&subpd);
-      fclose(outfile);
 
       subpdnum++;
       subpdelt = 0;
@@ -251,12 +277,8 @@ int main(int argc,char *argv[])
 
   if (pd_stor_nelts(subpd) != 0) {  /* Are there leftovers? */
     
-    char fname[256];
-    sprintf(fname,"%s-%05d.pdstor",basename,subpdnum);
-    FILE *outfile = fopen(fname,"w");
-    pd_write_pdstor(outfile,subpd);
+    write_piece(basename,subpdnum,subpd);
     pd_free_pdstor(&subpd);
-    fclose(outfile);
     subpdnum++;
     
   }
-- 
2.43.0


From 892f9f19fa750a8a5351342d5f1df594a94c212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:13 +0000
Subject: [PATCH 053/110] fix: splitpd crashed on names without .pdstor and
 wrote one oversized piece for -n 0 or -s 0

---
 src/splitpd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/splitpd.c b/src/splitpd.c
index 1edd7a1..a5aa280 100644
--- a/src/splitpd.c
+++ b/src/splitpd.c
@@ -155,6 +155,13 @@ int main(int argc,char *argv[])
 
   }
     
+  if ((pieces->count > 0 && pieces->ival[0] < 1) || (size->count > 0 && size->ival[0] < 1)) {
+
+    printf("splitpd: the number of pieces or the size of each piece must be at least 1\n");
+    exit(1);
+
+  }
+
   clock_t start, end;
   double cpu_time_used = 0.0;
   start = clock();
@@ -237,7 +244,7 @@ int main(int argc,char *argv[])
 
   char *basename = strdup(file->basename[0]);
   char *extension_start = strstr(basename,".pdstor");
-  *extension_start = 0;
+  if (extension_start != NULL) { *extension_start = 0; }
  
   for(pd = pd_stor_firstelt(pdstor),
 	subpd = pd_new_pdstor();
-- 
2.43.0


From 91dc221616897f2e8e9e56f661f6dcaa78a746b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:13 +0000
Subject: [PATCH 054/110] fix: connectsum leaked every sum; progress reports
 compared with uninitialised values

---
 src/computepd.c  | 2 +-
 src/connectsum.c | 4 ++--
 src/joinpd.c     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/computepd.c b/src/computepd.c
index 0170ba3..c7caf3a 100644
--- a/src/computepd.c
+++ b/src/computepd.c
@@ -192,7 +192,7 @@ int main(int argc,char *argv[])
     
   pd_code_t *pd;
   unsigned int processed = 0;
-  int percent_complete;
+  int percent_complete = -1;
   
   for(pd = pd_stor_firstelt(pdstor);pd != NULL;pd = pd_stor_nextelt(pdstor),
       processed++) {
diff --git a/src/connectsum.c b/src/connectsum.c
index 73e33fe..724b3fe 100644
--- a/src/connectsum.c
+++ b/src/connectsum.c
@@ -190,7 +190,7 @@ int main(int argc,char *argv[])
     
   pd_code_t *pdA, *pdB;
   unsigned int aprocessed = 1;
-  int percent_complete;
+  int percent_complete = -1;
   unsigned int total_cs = 0;
 
   for(pdA = pd_stor_firstelt(astor);pdA != NULL;pdA = pd_stor_nextelt(astor),
@@ -259,7 +259,7 @@ int main(int argc,char *argv[])
 		pd_addto_pdstor(cstor,pdC,ISOMORPHISM);
 	      total_cs++;
 	      
-	      free(pdC);
+	      pd_code_free(&pdC);
 	      
 	      }
 	      
diff --git a/src/joinpd.c b/src/joinpd.c
index 3a957a8..15fbf2a 100644
--- a/src/joinpd.c
+++ b/src/joinpd.c
@@ -240,7 +240,7 @@ int main(int argc,char *argv[])
     start = clock(); 
     
     pd_code_t *pdA;
-    int percent_complete;
+    int percent_complete = -1;
     int processed = 0;
     
     for(pdA = pd_stor_firstelt(bstor);pdA != NULL;pdA = pd_stor_nextelt(bstor),
-- 
2.43.0


From 1b4c7ad4f0583eb9939cc2750a5f4ceedf41c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:41 +0000
Subject: [PATCH 055/110] fix: carbonizepd did not notice missing or surplus pd
 codes and aborted on an empty pdstor

---
 src/carbonizepd.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/carbonizepd.c b/src/carbonizepd.c
index ea693cb..0629171 100644
--- a/src/carbonizepd.c
+++ b/src/carbonizepd.c
@@ -864,7 +864,7 @@ int main(int argc,char *argv[]) {
 
     printf("writing pd_create_X functions...\n");
     int j;
-    for(j=0;!feof(in);j++) { 
+    for(j=0;j<nelts_claimed;j++) { 
       
       pd_code_t *inpd;
 
@@ -878,7 +878,12 @@ int main(int argc,char *argv[]) {
 
       }
 
-      assert(inpd != NULL);
+      if (inpd == NULL) {
+
+	printf("fail (couldn't read pd code %d of %d)\n",j,nelts_claimed);
+	exit(1);
+
+      }
 
       if (weakchecking->count == 0) { 
 
@@ -911,6 +916,17 @@ int main(int argc,char *argv[]) {
       printf("\t wrote pd_create_%s\n",name);
 
     }
+    fscanf(in," ");
+
+    if (ferror(in) || !feof(in)) {
+
+      printf("fail (%s continues after the %d pd codes announced in the header)\n",
+	     infile->filename[i],nelts_claimed);
+      exit(1);
+
+    }
+
+    fclose(in);
     printf("done (wrote %d functions).\n",j);
 
     if (outfile->count == 0 || i == infile->count-1) { 
-- 
2.43.0


From 7ed2c948653285f098586b24268674650eb00aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:41 +0000
Subject: [PATCH 056/110] fix: randompolygon compared the wrong entries when
 looking for a knot type

---
 src/plcrwalk.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/plcrwalk.c b/src/plcrwalk.c
index fe6b853..8ec53b4 100644
--- a/src/plcrwalk.c
+++ b/src/plcrwalk.c
@@ -541,15 +541,21 @@ int main(int argc, char *argv[]) {
 
 	  for (check = 0; check < nposs; check++) {
 
-	    if (thistype->cr[check] == searchtype->cr[check] &&
-		thistype->ind[check] == searchtype->ind[check]) {
+	    int factor, matches = (thistype[check].nf == searchtype->nf);
 
-	      passes_knottype = true;
+	    for (factor = 0; factor < searchtype->nf && matches; factor++) {
+
+	      matches = (thistype[check].cr[factor] == searchtype->cr[factor] &&
+			 thistype[check].ind[factor] == searchtype->ind[factor]);
 
 	    }
 
+	    if (matches) { passes_knottype = true; }
+
 	  }
 
+	  free(thistype);
+
 	}
 
       }
-- 
2.43.0


From 61482cd9d6522216a6a143a3cad3cd35696f2c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:55 +0000
Subject: [PATCH 057/110] fix: randompolygon reported success with fewer
 samples than asked for and truncated long output names

---
 src/plcrwalk.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/plcrwalk.c b/src/plcrwalk.c
index 8ec53b4..2f8cbe1 100644
--- a/src/plcrwalk.c
+++ b/src/plcrwalk.c
@@ -309,7 +309,11 @@ int main(int argc, char *argv[]) {
 
   if (outfile->count > 0) {
 
-    strncpy(outfile_name, outfile->filename[0], 512);
+    if (strlen(outfile->filename[0]) >= sizeof(outfile_name)) {
+      fprintf(stderr, "randompolygon: output name %s is too long.\n", outfile->filename[0]);
+      exit(1);
+    }
+    strcpy(outfile_name, outfile->filename[0]);
 
   } else {
 
@@ -522,6 +526,13 @@ int main(int argc, char *argv[]) {
 
       }
 
+      if (L == NULL) {
+
+	fprintf(stderr, "randompolygon: Couldn't build a polygon for sample %d.\n", samps);
+	exit(1);
+
+      }
+
       int passes_knottype = true;
       int nposs = 0;
       plc_knottype *thistype;
@@ -619,6 +630,13 @@ int main(int argc, char *argv[]) {
 
   }
 
+  if (samps < samples->ival[0]) {
+
+    fprintf(stderr, "\nrandompolygon: gave up after %d steps with %d of %d samples.\n", i, samps, samples->ival[0]);
+    exit(1);
+
+  }
+
   bigEnd = clock();
   cpu_time_used = ((double) (bigEnd - bigStart)) / CLOCKS_PER_SEC;
   printf("done (%-5.3g sec/%-5.3g sec/polygon/%-5.3f polygons/sec)\n\n", cpu_time_used, cpu_time_used / samps,
-- 
2.43.0


From 8779b078cb88214de76219cce17d05cb568d6a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 058/110] fix: parsing a file name without extension read past
 its end

---
 src/arg_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_file.c b/src/arg_file.c
index c331339..3cb2f2b 100644
--- a/src/arg_file.c
+++ b/src/arg_file.c
@@ -91,7 +91,7 @@ static const char* arg_extension(const char *basename)
         result = basename+strlen(basename);
 
     /* special case: empty extensions (eg "foo.","foo..") are not considered as true extensions */
-    if (basename && result && result[1]=='\0')
+    if (basename && result && *result && result[1]=='\0')
         result = basename+strlen(basename);
 
     return result;
-- 
2.43.0


From 25fe8442882b65890803d3cf6d28f0c5856fb02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:36 +0000
Subject: [PATCH 059/110] fix: reversing a component of a 0-crossing diagram
 crashed

---
 src/pd_operations.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_operations.c b/src/pd_operations.c
index 4f2d270..6fee463 100644
--- a/src/pd_operations.c
+++ b/src/pd_operations.c
@@ -46,6 +46,8 @@ void pd_reorient_component(pd_code_t *pd, pd_idx_t cmp,pd_or_t orient)
   pd_check_notnull(SRCLOC,"pd",pd);
   pd_check_cmp(SRCLOC,pd,cmp);
 
+  if (pd->ncross == 0) { return; } /* The edge of a 0-crossing diagram has no ends. */
+
   if (orient == PD_NEG_ORIENTATION) {
 
     /* Several things need to happen in a proper component reversal:
-- 
2.43.0


From 03b53020355ed2c420194595b6a94e65fe70de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:48 +0000
Subject: [PATCH 060/110] fix: projecting a curve could change its knot type by
 perturbing a vertex many times

---
 src/plcTopology.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index a5a9789..e985f23 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -675,6 +675,7 @@ plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
 
     }
 
+    plCurve *Lstart = plc_copy(Lcopy);
     Lprojection = plc_copy(Lcopy);
     plc_project(Lprojection,plc_build_vect(0,0,1));
 
@@ -715,9 +716,19 @@ plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
 
 	      projection_clean = false;
 
+	      /* An edge may be in trouble with many others. We always
+		 perturb from the position at the start of this pass, since
+		 it's only safe to move a vertex by safe_radius in all. */
+
+	      Lcopy->cp[cmpA].vt[vtA]   = Lstart->cp[cmpA].vt[vtA];
+	      Lcopy->cp[cmpA].vt[vtA+1] = Lstart->cp[cmpA].vt[vtA+1];
+
 	      plc_perturb_vect(rng,&Lcopy->cp[cmpA].vt[vtA],safe_radius);
 	      plc_perturb_vect(rng,&Lcopy->cp[cmpA].vt[vtA+1],safe_radius);
 
+	      Lcopy->cp[cmpB].vt[vtB]   = Lstart->cp[cmpB].vt[vtB];
+	      Lcopy->cp[cmpB].vt[vtB+1] = Lstart->cp[cmpB].vt[vtB+1];
+
 	      plc_perturb_vect(rng,&Lcopy->cp[cmpB].vt[vtB],safe_radius);
 	      plc_perturb_vect(rng,&Lcopy->cp[cmpB].vt[vtB+1],safe_radius);
 
@@ -739,6 +750,7 @@ plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
        this projection. We sweep again to make sure. */
 
     plc_free(Lprojection);
+    plc_free(Lstart);
 
   }
 
-- 
2.43.0


From aa02cbe7286fa924b66420fdf3b279c23bd34ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:36 +0000
Subject: [PATCH 061/110] fix: reading a pdstor with a partially signed code
 aborted instead of refusing the file

---
 src/pd_storage.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index b6af721..bb47680 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -787,12 +787,30 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
       pd_free_pdstor(&pdstor);
       return NULL;
 
-    } else {
+    }
+
+    /* A pdstor can't hold partially signed codes (see pd_pack), so a file
+       which contains one is damaged. */
+
+    pd_idx_t cr,nunset=0;
+
+    for(cr=0;cr<pd->ncross;cr++) {
+
+      if (pd->cross[cr].sign == PD_UNSET_ORIENTATION) { nunset++; }
 
-      pd_addto_pdstor(pdstor,pd,eq);
+    }
+
+    if (nunset != 0 && nunset != pd->ncross) {
+
+      if (PD_VERBOSE) { printf("pd_read_pdstor: pd code %d is only partially signed.\n",elt); }
+      pd_code_free(&pd);
+      pd_free_pdstor(&pdstor);
+      return NULL;
 
     }
 
+    pd_addto_pdstor(pdstor,pd,eq);
+
     pd_code_free(&pd);
 
   }
-- 
2.43.0


From 14509c5a68096d2b675a854b3cfd8ea5a8031032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:35 +0000
Subject: [PATCH 062/110] fix: a tangle slide of a strand with a single
 crossing was refused

---
 src/pd_tangles.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 992bceb..ef2f78d 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -2402,6 +2402,19 @@ end_anchor   |                   |    +---start_anchor
 
   }
 
+  if (n == 2) {
+
+    /* There is no internal edge, so the only crossing of the
+       overstrand doesn't have an unset edge yet. Detach e[0]. */
+
+    pd_edge_t *first = &(pd_working->edge[overstrand_edges[0]]);
+
+    pd_working->cross[first->head].edge[first->headpos] = PD_UNSET_IDX;
+    first->head = PD_UNSET_IDX;
+    first->headpos = PD_UNSET_POS;
+
+  }
+
   /* Step 3. We're now in the state:
 
 		  |  	   |
-- 
2.43.0


From 8e4ca4a5b2bddc6a3a4a2b08ebec0973cf1d8c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:35 +0000
Subject: [PATCH 063/110] fix: a tangle slide used a deleted edge when a strand
 returns to the tangle

---
 src/pd_tangles.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index ef2f78d..dac53a7 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -2531,7 +2531,33 @@ end_anchor   | 	    Tangle     	 |
 
     if (has_unset) {
 
-	pd_crossing_delete(pd_working,j);
+      /* Deleting the crossing splices the edge coming in to the edge
+	 going out, which survives. If the edge coming in is one of
+	 the complementary edges, the survivor takes its place. */
+
+      for(k=0;k<2;k++) {
+
+	pd_idx_t ina = pd_working->cross[j].edge[k], outa = pd_working->cross[j].edge[k+2];
+
+	if (ina != PD_UNSET_IDX && outa != PD_UNSET_IDX) {
+
+	  if (pd_working->edge[ina].head != j || pd_working->edge[ina].headpos != k) {
+
+	    pd_idx_t swap = ina; ina = outa; outa = swap;
+
+	  }
+
+	  for(i=0;i<t->nedges-(n-1);i++) {
+
+	    if (complementary_edges[i] == ina) { complementary_edges[i] = outa; }
+
+	  }
+
+	}
+
+      }
+
+      pd_crossing_delete(pd_working,j);
 
     }
 
-- 
2.43.0


From 3729b1c1e9930122167b4230a621f72c059b3346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:35 +0000
Subject: [PATCH 064/110] fix: a tangle slide left the sign of a single new
 crossing uninitialised

---
 src/pd_tangles.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index dac53a7..fcc70d3 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -3147,6 +3147,24 @@ end_anchor   | 	    Tangle     	 |
 
     pd_working->cross[pd->ncross + (ncomplementary_edges-1)].edge[exit_pos] = overstrand_edges[n-1];
 
+    /* If there's only one new crossing, the loop below (which sets the
+       signs of the new crossings) doesn't run, so we set the sign here. */
+
+    if (ncomplementary_edges == 1) {
+
+      pd_idx_t in_overstrand, out_overstrand;
+
+      pd_working->cross[pd->ncross].sign = PD_POS_ORIENTATION;
+      pd_overstrand(pd_working,pd->ncross,&in_overstrand,&out_overstrand);
+
+      if (overstrand_goes_OVER != (in_overstrand == overstrand_edges[0])) {
+
+	pd_working->cross[pd->ncross].sign = PD_NEG_ORIENTATION;
+
+      }
+
+    }
+
     /* Now add new edges joining new crossings in pairs. We have to
        keep in mind that we've already added ncomplementary_edges new
        edges in the process of splitting the complementary edges.
-- 
2.43.0


From c96c5a2a2f16ce04fd62c93bc4bb9dc1bc8ec2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:35 +0000
Subject: [PATCH 065/110] fix: a tangle slide wrote past the edge buffer of
 components that grow

---
 src/pd_tangles.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index fcc70d3..b4d9f03 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -3501,6 +3501,12 @@ end_anchor   | 	    Tangle     	 |
 
     } else { /* We found an edge... copy it to position zero and loop. */
 
+      /* The component may have grown. */
+
+      pd_working->comp[i].edge = realloc(pd_working->comp[i].edge,
+					 (pd_working->MAXEDGES+2)*sizeof(pd_idx_t));
+      assert(pd_working->comp[i].edge != NULL);
+
       pd_working->comp[i].edge[0] = pd_working->comp[i].edge[j];
 
       pd_idx_t next_edge;
-- 
2.43.0


From 3a5cfaa202e514517e3045bf926a261c22398b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:53 +0000
Subject: [PATCH 066/110] fix: removing the last loop of a diagram lost its
 component tag

---
 src/pd_crossingmoves.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 4ada801..efaa068 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -465,7 +465,9 @@ pd_code_t *pd_R1_loopdeletion(pd_code_t *pd,pd_idx_t cr)
 
     if (pd->ncomps == 1 && pd->ncross == 1 && pd->nedges == 2 && pd->nfaces == 3) {
 
-      return pd_build_unknot(0);
+      pd_code_t *unknot = pd_build_unknot(0);
+      unknot->comp[0].tag = pd->comp[0].tag;
+      return unknot;
 
     } else {
 
-- 
2.43.0


From b06c7c5bd929fa916d4ec4e2637a11fc04acb586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:59 +0000
Subject: [PATCH 067/110] fix: keep the original line endings of pllmpoly02.c

---
 src/pllmpoly02.c | 4626 +++++++++++++++++++++++-----------------------
 1 file changed, 2313 insertions(+), 2313 deletions(-)

diff --git a/src/pllmpoly02.c b/src/pllmpoly02.c
index f319539..ca0f49a 100644
--- a/src/pllmpoly02.c
+++ b/src/pllmpoly02.c
@@ -1,2313 +1,2313 @@
-/*          FAST VERSION       */
-/* A load balanced calculation of the oriented polynomial  Ver 1.1f */
-/* Bruce Ewing and Kenneth C. Millett  (author: Ewing)    Feb 5, 01 */
-/* Department of Mathematics */
-/* University of California */
-/* Santa Barbara, CA 93106 */
-/* there is a hard limit of 255 crossings in this program */
-
-#include <config.h>
-
-#ifdef HAVE_SIGNAL_H
-#include <signal.h>
-#endif
-
-#ifdef HAVE_SYS_TYPES_H
-#include <sys/types.h>
-#endif
-
-#ifdef HAVE_SYS_TIMES_H
-#include <sys/times.h>
-#endif
-
-#include <stdio.h>
-#include <stdlib.h>
-
-#ifdef HAVE_UNISTD_H
-#include <unistd.h>
-#endif
-
-#ifdef HAVE_FCNTL_H
-#include <fcntl.h>
-#endif
-
-#include <string.h>
-#include <time.h>
-#include <assert.h>
-
-  /* values the USER needs to define!! */
-#define XCNT       250     /* maximum crossings in knot (at most 255) */
-#define XCNTSQ   62500     /* YOU MUST CALCULATE XCNT SQUARED! */
-#define XCSQTR  187500     /* YOU MUST CALCULATE XCNTSQ times THREE! */
-
-
-/* system values -- it's best if these are not touched */
-#define EOFCHR       0     /* integer value of my "end of file" character */
-#define MAXBIL   32767     /* positive value where overflow warning triggers */
-
-#define MAXPOLY  12000     /* Maximum # of characters for output poly */
-
-/* globals */
-
-typedef struct state_struct {
-
-  int readpos;
-  int writepos;
-
-  long plybuf[XCNTSQ], *poly[XCNT], notbeg, count[XCNT], b[XCNT+1];
-  unsigned char sign[XCNT], donlnk[XCNT+1], t[XCNT+2], crsbuf[XCNT+1][8];
-  unsigned char buf[XCSQTR], cbuf[10242], clist[XCNT+2], stc[XCNT*2];
-  short numcrs, numlps, poslnk, neglnk, lowx, restrt, gapsto[65];
-  short tt[XCNT+2], bstlst[XCNT], bilbuf[XCNTSQ], *bilion[XCNT], suplng;
-
-} lmpoly_state_t;
-
-/* Prototypes for later functions */
-
-void mypause(int sig);
-int  ntc(long i,char *buf,lmpoly_state_t *state);
-int  conchk(lmpoly_state_t *state);
-void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state);
-void squish(short sqush,lmpoly_state_t *state);
-void sqush2(short n,short g, lmpoly_state_t *state);
-void triple(short m,short i,unsigned char *p,lmpoly_state_t *state);
-void untwst(short l,short n,short i,short ex,lmpoly_state_t *state);
-void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state);
-int  tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state);
-void delpow(lmpoly_state_t *state);
-void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state);
-int  bust(short tobust,short xpow,short ypow,lmpoly_state_t *state);
-int  skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state);
-
-int strread(char *str,void *buffer,size_t size,lmpoly_state_t *state)
-
-/* Reads up to size characters from string, copying the results to buffer. */
-/* We keep a (global) count of our position in the string internally.      */
-/* Return the number of characters read, or 0 at the end of the string.    */
-/* We don't copy the terminating NULL from str. */
-
-{
-  int ctried,cread;
-
-  for(ctried=0,cread=0;ctried < size;ctried++) {
-
-    if (str[(state->readpos)] != 0) {
-
-      ((char *) buffer)[cread++] = str[(state->readpos)++];
-
-    }
-
-  }
-
-  return cread;
-}
-
-int strwrite(char *str,char *buffer,size_t size,lmpoly_state_t *state)
-
-/*   Writes size characters from buffer to str. Returns the number of  */
-/*   characters written. We keep a static counter of where we are in   */
-/*   the string. */
-
-{
-  int ctried,cwrote;
-
-  for(ctried=0,cwrote=0;ctried < size;ctried++) {
-
-    str[(state->writepos)++] = buffer[cwrote++];
-
-    if ((state->writepos) > MAXPOLY-1) {
-
-      printf("lmpoly: Output polynomial larger than %d characters.\n",
-	     MAXPOLY);
-
-      exit(1);
-
-    }
-
-  }
-
-  return cwrote;
-}
-
-
-char *plc_lmpoly(char *code, int timeout)
-/* This version takes a timeout in seconds. Returns NULL pointer if the computation takes too long. */
-{
- register short i, j, k, h, m, n, *sp;
- register unsigned char *p, *c;
- int in = 0, out, stats, len, len2, pause();
- long lngi, *lp1, *lp2, kstrt, cmpval;
- short g, xpow, ypow, dspair[4], maxcrs, chksiz, nopro, skflag;
- unsigned char nbuf[82], *q, *s;
- //struct tms hi;
- char *outpoly;
-
- clock_t start,end;
- double  cpu_time_used;
-
- lmpoly_state_t *state = calloc(1,sizeof(lmpoly_state_t));
- assert(state != NULL);
-
- start = clock();
-
- if (code == NULL) { free(state); return NULL; }
-
- /* It's possible that we'll be fed a code with only one crossing */
- /* This will crash the rest of the code, so we insert some stuff here */
- /* to catch this case and return [[0]]N for the unknot. --JHC */
-
- int newlinecount = 0;
- char *codeptr;
- for(codeptr = code;codeptr != NULL;) {
-
-   codeptr = strchr(codeptr,'\n');
-   if (codeptr != NULL) {
-     newlinecount++;
-     codeptr++;
-   }
-
-} /* Count newlines */
-
- if (newlinecount == 2 || newlinecount == 3) { /* No crossings, or exactly one */
-
-   outpoly = calloc(128,sizeof(char));
-   sprintf(outpoly,"[[1]]N ");
-   free(state);
-   return outpoly;
-
- }
-
-/* Now back to your regularly scheduled programming. */
-
- outpoly = calloc(MAXPOLY,sizeof(char)); // Space for a large polynomial
- (state->readpos) = 0;  // Reset the globals
- (state->writepos) = 0;
-
- maxcrs=XCNT;    /* maximum crossings in a knot, including all limits */
- chksiz= 50;     /* knot size trigger where (state->bilion) is checked, stats printed */
- *(state->sign)= 255;      /* do 3 tests on the machine to verify trick operation */
- i= (short) *(state->sign);
- if (i< (lngi=0)){
-  write (1,"unsigned char problem - can't calculate knot >127 crossings\n",60);
-  if (maxcrs>127) maxcrs=127;
- }
- kstrt= 0x01020304;
- p= (unsigned char *) &kstrt;
- c= (unsigned char *) &lngi;
- *(c++)= *(p++);
- *(c++)= *(p++);
- *(c++)= *(p++);
- *c= *p;
- if (lngi!= 0x01020304){
-  write (1,"long int pointer copy problem -- halt/restart won't work\n",57);
- }
- *nbuf= nbuf[1]= nbuf[2]= nbuf[3]= 0;
- (state->t)[0]=1;
- (state->t)[1]=2;
- (state->t)[2]=3;
- (state->t)[3]=4;
- lp1= (long *) (state->t);
- lp2= (long *) nbuf;
- *lp2= *lp1;
- if (*nbuf!=1 || nbuf[1]!=2 || nbuf[2]!=3 || nbuf[3]!=4){
-  write (1,"4 byte copy problem -- use PORTABLE PROGRAM version!\n",53);
-  exit (1);
- }
- if (sizeof(lngi)== ((state->suplng)=2)){
-  write(1,"halt/restart won't work, and watch for coefficient overflows\n",61);
-  cmpval= 10000;
-  chksiz= 20;
- }
- else cmpval= 1000000000;     /* how big a value fits in a poly memory slot? */
- if (sizeof(lngi)== 8) (state->suplng)= 1;
-
- // if (argc<2){
- // write (1,"usage:  lmpoly -rs knotfile [knotfile ...]\n",43);
- // exit (1);
- //}
-
- /* if ((out=open("lmknot.out",1))== -1){ */
-/*   if ((out=creat("lmknot.out",0644))== -1){ */
-/*    write (1,"fatal: cannot create output file 'lmknot.out'\n",46); */
-/*    exit (1); */
-/*   } */
-/*  } */
-/*  else lseek (out,(long) 0,2); */
-/*  close (out); */
-
- *(state->count)= (state->restrt)= i= j= kstrt= nopro= 0;
- stats= -1;
-
- /* This code appears to detect "restarts" and "stats", neither of which
-    we are currently implementing. */
-
- /* if (*argv[1]=='-'){
-  if (argc==2 && argv[1][1]=='r'){
-   (state->restrt)=1;
-   if (argv[1][2]=='s') stats= 0;
-  }
-  else if (argv[1][1]=='s'){
-   stats= 0;
-   ++argv;
-   --argc;
-  }
-  } */
-
-
- lp1= state->plybuf;
- sp= (state->bilbuf);
- while (j<XCNT){
-  (state->poly)[j]= lp1;
-  (state->bilion)[j]= sp;
-  lp1+= 1+ 2* (XCNT- ++j);
-  sp+= 1+ 2* (XCNT-j);
- }
-NEWFIL:
-
- /* We comment out some "stats" code, since we won't display stats anyway. */
-
- /* if (stats>0){     // remove stats info for previous knot file
-  i= strlen(*argv);
-  c= (unsigned char *) *argv+i-1;
-  if (i>11) i=11;
-  while (i--!=0 && *c!='/') --c;
-  p=t;
-  while (*++c!=0) *(p++)= *c;
-  *(p++)= '.';
-  *(p++)= 'l';
-  *p=0;
-  close (stats);
-  unlink(t);
-  } */
- /* if (--argc==0) exit(0); */ /* This was the exit point for the program */
-
- /* We also comment out some "restart" code since we aren't restarting */
-
- /*if ((state->restrt)!=0){           // if I am restarting an old calculation
-  if ((in=open("lmpoly.(state->restrt)",0))== -1){
-   write (1,"couldn't find restart file\n",27);
-   exit (0);
-  }
-  read (in,nbuf,82);
-  read (in,(state->cbuf),12);
-  *argv= (char *) (state->cbuf);
-  read (in,(state->buf),7);
-  (state->numcrs)= *(state->buf);
-  xpow= (short) (state->buf)[2];
-  ypow= (short) (state->buf)[1];
-  (state->numlps)= (short) (state->buf)[3];
-  (state->poslnk)= (short) (state->buf)[4];
-  (state->neglnk)= (short) (state->buf)[5];
-  if (((state->buf)[6]&1) !=0) ypow= -ypow;
-  if (((state->buf)[6]&2) !=0) xpow|= 512;
-  read (in,*(state->crsbuf),(state->numcrs)*8);
-  i= 0;
-  while (i!=(state->numcrs)){
-   (state->sign)[i]= (state->crsbuf)[i][1]>>4;
-   (state->crsbuf)[i++][1]&=6;
-  }
-  p= (unsigned char *) &(state->lowx);
-  read (in,p,2);
-  p= (unsigned char *) &kstrt;
-  read (in,p,4);
-  p= (unsigned char *) &notbeg;
-  read (in,p,4);
-  read (in,(state->buf), (int) notbeg);
-  read (in,(char *) count,XCNT*4);
-  read (in,(char *) state->plybuf,4*XCNT*XCNT);
-  read (in,(char *) (state->bilbuf),2*XCNT*XCNT);
-  close (in);
-  in=0;
-  s= (state->cbuf)+14;
-  *s= EOFCHR;
- }
- else if ((in=open(*++argv,0))==-1){
-  write (1,"cannot open ",12);
-  write (1,*argv,strlen(*argv));
-  write (1,", skipping\n",11);
-  goto NEWFIL;
- }
- if (stats>=0){
-  i= strlen(*argv);
-  q= (unsigned char *) *argv+i-1;
-  if (i>11) i=11;
-  while (i--!=0 && *p!='/') --q;
-  p=t;
-  while (*++q!=0) *(p++)= *q;
-  *(p++)= '.';
-  *(p++)= 'l';
-  *p=0;
-  if ((stats=creat(t,0644)) <0) stats=0;
- }
- if ((state->restrt)!=0){
-  if (stats>0){
-   write (stats,nbuf,strlen(nbuf));
-   write (stats,"\n",1);
-  }
-  (state->restrt)=0;
-  goto STEP1; // restart file has set up all NEWNOT data already
- }
- */
-
- c = (state->cbuf);
-
- /* This code fragment copies the input file into a character buffer,
-    appending the EOF character to the end of the string. Instead, we
-    copy our input "code" buffer into the (state->cbuf) array.
-
-    Original code:
-
-    c[read(in,c,10240)]= EOFCHR;
-
- */
-
- int   mypos;
- for(mypos = 0;code[mypos] != 0 && mypos < 10240-1;mypos++) {
-   c[mypos] = code[mypos];
- }
- c[mypos]= EOFCHR;
-
- while (*c=='\n') ++c;
-
- s=c;
-NEWNOT:
- i= XCNT-1;
- while (i!=0 && (state->count)[i]==0) --i;
- if (*(state->count)!= ((state->numcrs)=0)){
-  if (stats>=0){
-   if ((out=open("lmknot.stats",1))== -1) out=creat("lmknot.stats",0644);
-   else lseek (out,(long) 0,2);
-  }
-/*   if (stats>=0 && out>0){ */
-/*    write (out,nbuf,strlen(nbuf)); */
-/*    write (out,"\n",1);     /\* write out statistics for knot just completed *\/ */
-/*    lngi=0; */
-/*    while (i!=0){ */
-/*     write (out,t,ntc((long)(i+1),t,state)); */
-/*     write (out,"     ",5); */
-/*     write (out,t,ntc(count[i],t)+1,state); */
-/*     lngi+= count[i--]; */
-/*    } */
-/*    write (out,"\ntotal: ",8); */
-/*    write (out,t,ntc(lngi,t,state)+1); */
-/*    write (out,"run: ",5); */
-/*    times(&hi); */
-/*    lngi= ((hi.tms_utime-kstrt)*5)/3; */
-/*    write (out,t,ntc(lngi/100,t,state)); */
-/*    write (out,".",1); */
-/*    len= ntc(lngi%100,t,state); */
-/*    write (out,"0",2-len); */
-/*    write (out,t,len); */
-/*    write (out," s\n\n",4); */
-/*    kstrt= hi.tms_utime; */
-/*    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40); */
-/*    close (out); */
-/*   } */
-  k= XCNT;
-  i=0;
-  while (k!=0 && i==0){
-   i= 2+ 2*(XCNT-k);
-   lp1= (state->poly)[--k];
-   sp= (state->bilion)[k];
-   while (--i!=0 && *lp1==0 && *(sp++)==0) ++lp1;
-  }
-  if (i!=0){
-
-    /* Original code:
-
-       if ((out= open("lmknot.out",1))<0) out=open("temp.out",1);
-
-       lseek (out,(long) 0,2);
-       write (out,nbuf,strlen(nbuf));
-       write (out,"\n",1); */
-
-    /* write out polynomial for knot just completed */
-
-    /* These lines would copy the first line of the crossing code into
-       the output. We don't need this, so we forget it */
-
-    /*strwrite(outpoly,(char *)(nbuf),strlen((char *)(nbuf)));
-      strwrite(outpoly," ",1); */
-
-    /*
-    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40);
-    if (count[1]!=0) write (out,"coefficient overflow error: output BAD\n",39);
-    */
-
-    if ((state->count)[2]<0) {
-
-      printf("lmpoly: knot became inconsistent.\n");
-      exit(1);
-
-    }
-
-    if ((state->count)[1]!=0) {
-
-      printf("lmpoly: coefficient overflow error.\n");
-      exit(1);
-
-    }
-
-    len=m= -1;
-    while (m++<k || (state->lowx) <= 0){
-        if ((state->lowx)== (i=0)) strwrite (outpoly,"[",1,state);
-        n= XCNT-m-1;
-        j= n*2;
-        while (j!=n && (state->poly)[m][j]==0 && (state->bilion)[m][j]==0) --j;
-        while (i!=n && (state->poly)[m][i]==0 && (state->bilion)[m][i]==0) ++i;
-        if (len==0 || (state->lowx)>=0 || i!=j || (state->poly)[m][i]!=0 || (state->bilion)[m][i]!=0){
-            while (i<=j){
-                if (i==n) strwrite (outpoly,"[",1,state);
-                h=0;
-                lngi= (state->poly)[m][i];
-                if (lngi>=cmpval || lngi<= -cmpval){
-                    h= lngi/cmpval;
-                    lngi-= h* cmpval;
-                }
-                h+= (state->bilion)[m][i];
-                if (h*lngi <0){   /* (state->bilion) and poly are different signs */
-                    if (h<0){
-                        lngi-= cmpval;
-                        ++h;
-                    }
-                    else {
-                        lngi+= cmpval;
-                        --h;
-                    }
-                }
-                if (h!=0){
-                    if (lngi<0) lngi= -lngi;
-                    strwrite (outpoly,(char *)(state->t),ntc((long) h,(char *)(state->t),state),state);
-                    len= ntc(lngi,(char *)(state->t),state);
-                    if (cmpval==10000) len2= 4-len;
-                    else len2= 9-len;
-                    strwrite (outpoly,"00000000",len2,state);
-                    strwrite (outpoly,(char *)(state->t),len,state);
-                }
-                else strwrite (outpoly,(char *)(state->t),ntc(lngi,(char *)(state->t),state),state);
-                if (i++ ==n) strwrite (outpoly,"]",1,state);
-                if (i<=j) strwrite (outpoly," ",1,state);
-            }
-            if ((state->lowx)== (len=0)) strwrite (outpoly,"]",1,state);
-            strwrite (outpoly,"N",1,state);
-        }
-        ++(state->lowx);
-    }
-  }
-  strwrite (outpoly," ",1,state);
-  /* close(out); */ /* We are done writing the polynomial, so return */
-  free(state);
-  return outpoly;
- }
- i= XCNT;
- while (i!=0) (state->count)[--i]=0; /* Erase the (state->count) buffer */
- c=s;
- *nbuf=0;                   /* Erase the nbuf string? */
- if (*c!='1' || (*(c+1)!='+' && *(c+1)!='-')){
-  /* Copy first line of 's' into nbuf */
-  p= nbuf;
-  while (*c!='\n' && *c!= EOFCHR) *(p++)= *(c++);
-  *p= 0;
-  /* if (*c != EOFCHR && stats>0){ */
-/*    lseek (stats,(long) 0,0); */
-/*    write (stats,nbuf,strlen(nbuf)); */
-/*    write (stats,"\n",1); */
-/*   } */
- }
- if (*c=='\n') ++c;
- p= *(state->crsbuf);
- while (*c!='\n' && *c!=EOFCHR){
-  if ((state->numcrs)==maxcrs){
-    //write (1,"too many crossings in knot\n",27);
-    printf("lmpoly: too many crossings in knot\n");
-    free(outpoly);
-    free(state);
-    return NULL;
-  }
-  while (*c>='0' && *c<='9') ++c;
-  if (*c=='+') (state->sign)[(state->numcrs)]=6;      /* (state->sign)[] says what crossings are + or - */
-  else if (*c=='-') (state->sign)[(state->numcrs)]=2;
-  else if (*c==EOFCHR) --c;
-  else {
-    //write (1,"the format of this knot is unreadable, skipping file\n",53);
-    //close (in);
-    //goto NEWFIL;
-    printf("lmpoly: Could not parse input string.\n");
-    free(outpoly);
-    free(state);
-    return NULL;
-  }
-  ++c;
-  j=4;
-  while (j--!= (i=0) && *c!=EOFCHR){
-   while (*c>='0' && *c<='9'){
-    i*=10;
-    i+= *(c++)-0x30;
-   }
-   if (i==0){
-     //write (1,"the format of this knot is unreadable, skipping file\n",53);
-     //close (in);
-     //goto NEWFIL;
-     printf("lmpoly: Could not parse input string.\n");
-     free(outpoly);
-     free(state);
-     return NULL;
-   }
-   *(p++)= i-1;
-   if (*c!=EOFCHR){
-    if (*c<'a' || *c>'d'){
-      //write (1,"the format of this knot is unreadable, skipping file\n",53);
-      //close (in);
-      //goto NEWFIL;
-      printf("lmpoly: Could not parse input string.\n");
-      free(outpoly);
-      free(state);
-      return NULL;
-    }
-    *(p++)= (*(c++)-'a')*2;
-   }
-  }
-  ++(state->numcrs);
-  if (*c=='\n') ++c;
- }
- if (*c==EOFCHR){
-  c=(state->cbuf);
-  len=10240;
-  while (*s!=EOFCHR){
-   *(c++)= *(s++);
-   --len;
-  }
-  if (in!=0 && (i=read(in,c,len))!=0){
-   c[i]=EOFCHR;
-   c=(state->cbuf);
-   while (*c=='\n') ++c;
-   s=c;
-   goto NEWNOT;
-  }
-  *c= EOFCHR;
-  if (in!=0){
-   close (in);
-   in=0;
-  }
-  else goto NEWFIL;
-  if ((state->numcrs)<2) goto NEWFIL;
- }
- while (*c=='\n') ++c;
- s=c;
- lp1= *(state->poly);
- sp= *(state->bilion);
- lngi= XCNT*XCNT;
- while (--lngi!=0) *(lp1++)= *(sp++)= 0;
- (state->notbeg)=(state->numlps)=(state->poslnk)=(state->neglnk)= xpow= ypow= 0;
- if (conchk(state)!=0) exit(0);
- *(state->count)=1;
-STEP1:
- skflag=0;
-RESTRT:
- if ((state->restrt)!=0){
-   /* We don't include the restart functionality for now. */
-
-  /* if ((out=creat("lmpoly.restrt",0644))!= -1){ */
-/*    write (out,nbuf,82); */
-/*    i= strlen(*argv)-11; */
-/*    if (i<0) i=0; */
-/*    write (out,*argv+i,12); */
-/*    *(state->cbuf)= (state->numcrs); */
-/*    if (ypow<0){ */
-/*     ypow= -ypow; */
-/*     (state->cbuf)[6]=1; */
-/*    } */
-/*    else (state->cbuf)[6]=0; */
-/*    if ((xpow&512) !=0) (state->cbuf)[6]|= 2; */
-/*    (state->cbuf)[1]= ypow; */
-/*    (state->cbuf)[2]= xpow; */
-/*    (state->cbuf)[3]= (state->numlps); */
-/*    (state->cbuf)[4]= (state->poslnk); */
-/*    (state->cbuf)[5]= (state->neglnk); */
-/*    write (out,(state->cbuf),7); */
-/*    i= -1; */
-/*    while (++i!=(state->numcrs)) (state->crsbuf)[i][1]|= (state->sign)[i]<<4; */
-/*    write (out,*(state->crsbuf),(state->numcrs)*8); */
-/*    p= (un(state->sign)ed char *) &(state->lowx); */
-/*    write (out,p,2); */
-/*    times(&hi); */
-/*    kstrt-= hi.tms_utime; */
-/*    p= (un(state->sign)ed char *) &kstrt; */
-/*    write (out,p,4); */
-/*    p= (unsigned char *) &notbeg; */
-/*    write (out,p,4); */
-/*    write (out,buf, (int) notbeg); */
-/*    write (out,(char *) count,XCNT*4); */
-/*    write (out,(char *) state->plybufn,4*XCNT*XCNT); */
-/*    write (out,(char *) (state->bilbuf),2*XCNT*XCNT); */
-/*    close (out); */
-/*    close (stats); */
-/*    exit(0); */
-/*   } */
-   /*write (1,"couldn't create restart file 'lmpoly.restrt'\n",45);*/
-
-   printf("lmpoly: Warning! This version does not save"
-	  " restart info on quit.\n"
-	  "        Terminating run now.\n\n");
-   exit(0);
-   /*restrt=0; */
- }
-/* FIRST -- remove figure 8 loops, 2 cases  "#-#d#c#b#a"  "#+#b#a#d#c" */
-/* SECOND -- remove monogons (must recheck previous crossings) */
-/* 4 cases  "#+#b#a????"  "#+????#d#c"  "#-#d????#a"  "#-??#c#b??" */
-/* THIRD -- remove bigons -- make sure loops don't get forgotten. */
-/* 2 cases "k?mcmb???? m???kbka??"  "k?mc????md  m?????kakd" */
-/* bigon yanker MUST be completely thorough or loops can get lost later */
- *dspair=g= i= (state->numcrs);
- c=p= (state->crsbuf)[i];
- k=2;
- while (i--!=0){  /* loop through all crossings */
-  p-=8;
-  if (*p==i){
-   if (p[4]==i) ++(state->numlps);
-   else mrecon (p+4,p+(state->sign)[i],state);
-   squish (i,state);
-   goto STEP1;
-  }
-  else if (p[4]==i){
-    mrecon (p,p+((state->sign)[i]^4),state);
-    squish (i,state);
-   goto STEP1;
-  }
-   /* this bigon test checks that ka points to some mc, */
-    /* and kd to md, or kb to mb */
-  if (p[1]==4 && ((*p==p[6] && p[7]==6) || (*p==p[2] && p[3]==2))){
-   if ((j= *p) ==p[2]) k=6;
-   c= (state->crsbuf)[j];
-   if (p[4]==j) ++(state->numlps);
-   if (p[2]==p[6]) ++(state->numlps);
-   mrecon (p+4,c,state);
-   mrecon (p+k,c+k,state);
-   sqush2 (i,j,state);
-   goto STEP1;
-  }
-  (state->bstlst)[i]= 0;
- }
- if ((state->numcrs)<6) g=0;
-/* find very good and ok triples */
- while (g--!= (lngi=0)){
-  c-=8;
-  p= (state->crsbuf)[*c]+ ((c[1]^2)&2);
-  q= (state->crsbuf)[c[4]]+ ((c[5]^2)&2);
-  if ((i= c[2]) != (j= c[6]) && *c!=c[4]){
-   if ((m= *q) == (n= q[4])) m=n= -1;
-   if ((h= *p) == (k= p[4])) h=k= -1;
-   if ((h==i && k==j) || (j==h && k==i)) lngi=1;
-   if ((m==i && n==j) || (m==j && n==i)) lngi|=2;
-   if ((n==j || m==j) && (k==j || h==j)) lngi|=4;
-   if ((m==i || n==i) && (h==i || k==i)) lngi|=8;
-  }
-  else {
-   h=0;       /* there is a ring through this crossing */
-   if (i!=j){
-    i= *c;   /* on over branch */
-    h=2;
-   }
-   else if (*c==c[4]){
-    ++(state->numlps); /* knot's a distant union with a 2-link */
-    if ((state->sign)[g]==2) ++(state->neglnk);
-    else ++(state->poslnk);
-    sqush2 (g,i,state);
-    goto STEP1;
-   }
-   j=h;
-   c+=h;
-   if ((state->sign)[g]!=(state->sign)[i]) ++(state->numlps); /* loose ring */
-   else {
-    if ((state->sign)[g]==2) ++(state->neglnk);
-    else ++(state->poslnk);
-    j= h^2;
-   }
-   p= (state->crsbuf)[i]+j;  /* only do one mrecon unless I HAVE to do 2 */
-   q= c+4;
-   if (*c==i){
-    if ((c[1]&4) ==0) c= p+4;
-    else c=p;
-   }
-   else if (*q==i){
-    if ((q[1]&4) ==0) q= p+4;
-    else q=p;
-   }
-   else mrecon (p,p+4,state);
-   mrecon (c,q,state);
-   sqush2 (g,i,state);
-   goto STEP1;
-  }
-  if (lngi!=0){
-   k= lngi;
-   *dspair=1;
-   if ((k&3)!=0){
-    if ((c[3]&c[7]&2)!=0){
-      triple((short) ((k&2)<<1),g,c,state);
-     goto STEP1;
-    }
-    if (((c[3]^c[7])&2)!=0){
-     if ((c[((k&2)<<1)|1]&2)==0){
-      if ((state->sign)[c[(k&2)<<1]]!=(state->sign)[g]) (state->bstlst)[i]= (state->bstlst)[j]= -19;
-      else (state->bstlst)[i]= (state->bstlst)[j]= 8;
-     }
-     else {
-      n=8;
-      if ((state->sign)[c[(k&2)<<1]]==(state->sign)[g]) n= -8;
-      sp= (state->bstlst)+i;
-      if ((c[3]&2)!=0) sp= (state->bstlst)+j;
-      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
-     }
-    }
-    else {
-     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
-     else (state->bstlst)[g]-= 8;
-    }
-   }
-   if (k>3){
-    if (((c[1]|c[5])&2)==0){
-      triple((short) ((k&4)|2),g,c,state);
-     goto STEP1;
-    }
-    if (((c[1]^c[5])&2)!=0){
-     if ((c[(k&4)|3]&2)!=0){
-      if ((state->sign)[c[(k&4)|2]]!=(state->sign)[g]) (state->bstlst)[*c]= (state->bstlst)[c[4]]= -19;
-      else (state->bstlst)[*c]= (state->bstlst)[c[4]]= 8;
-     }
-     else {
-      n=8;
-      if ((state->sign)[c[(k&4)|2]]==(state->sign)[g]) n= -8;
-      sp= (state->bstlst) + c[4];
-      if ((c[1]&2)!=0) sp= (state->bstlst)+ *c;
-      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
-     }
-    }
-    else {
-     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
-     else (state->bstlst)[g]-= 8;
-    }
-   }
-  }
- }
- /* circuit remover */
- j= (state->numcrs)-1;
- if (j<3) j= -1;
- else if (j<11){    /* <12 will blow up */
-  p= *(state->crsbuf)+1;
-  i=(state->numcrs);
-  while (i--!=0 && *p!=4) p+=8; /* only non-alternating (a to c) knots */
-  if (i< (n=0)) j= -1;
-  else p= (state->crsbuf)[j]+5;   /* remove twists */
-  while (j>=0){
-   n^=4;
-   k= *(p--)^4;
-   if ((k&2) == 0){
-    c= (state->crsbuf)[*p]+k;
-    i= *c;
-    k= c[1]^4;
-    if ((k&2) != 0 && (state->crsbuf)[i][k]==j){
-      untwst ((short) *p,i,j,n,state);
-      squish (j,state);
-     goto STEP1;
-    }
-   }
-   if (n==0) --j;
-   p-=3;
-  }
- }
- g= (state->donlnk)[XCNT]= m= 0;
- while ((n=j) >= (*(state->tt)=(state->tt)[2]=h= 0)){
-  k=g;
-  do {
-   p= (state->crsbuf)[j]+k;
-   j= *p;
-   k= p[1]^4;
-   i= h;
-   p=(state->clist);
-   while (i--!=0 && *(p++) != j);
-   if (i>=0){
-    j= n;              /* circuit crosses itself */
-    goto NXTCIR; /* skip circuit, wait for a sub-piece that doesn't */
-   }
-   else {
-    ++(state->tt)[k&2];
-    *p= j;
-    (state->t)[h++]= (k&2)^2;
-   }
-  } while (n!=j);
-  if (k != g) --(state->tt)[k&2];
-  else k= -1;
-  if (*(state->tt)==0 || (state->tt)[2]==0){
-    rmcir(h,j,k,state->t,0,state);
-   goto STEP1;
-  }
-  if (tstcir(h,(state->bstlst),dspair,&skflag,state) !=0) goto RESTRT;
-  if (h==3){
-   (state->stc)[m++]=j; /* store vertex of 3 crossing circuit for (state->bstlst) later */
-   (state->stc)[m++]=g;
-   (state->stc)[m++]=k^4;
-  }
-NXTCIR:
-  if (g==0) g= (state->sign)[j];
-  else {
-   --j;
-   g=0;
-  }
- }
-/* if knot is tiny, store polynomial coefficients and restart a stored knot */
- if ((state->numcrs)<6){
-  lngi= 1;
-  if ((state->numcrs)==0) --(state->numlps);
-  delpow(state);
-  if ((xpow&512)!=0){
-   lngi= -1;
-   xpow&=511;
-  }
-  if ((state->numcrs)==4){
-   c= *(state->crsbuf);
-   p= c+4;
-   if (*p==*c || c[2]==p[2]){
-    g= -3;
-    if (*p==p[2] && *c==c[2]) g= -4;
-   }
-   else {
-    g= 0;  /* 0 is flag for knot */
-    i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
-    if (i!=16) g=2;     /* flag for 2 links   */
-   }
-  }
-  else if ((state->numcrs)==5){
-   n=10;
-   i=j= 0; /* step through knot, if don't get to end, it's a link */
-   do {
-    p= (state->crsbuf)[i]+j;
-    i= *p;
-    j= p[1]^4;
-    --n;
-   } while (i!=0 || j!=0);
-   if (n>0){
-    i=h= 0; /* 5 crossing 2 link  or twisted 3 link  or tref and 2 links */
-    g=m= 1;      /* or tref + link */
-    k= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
-    if (k>10 && k<30){
-     if (k>20){
-      while ((state->sign)[i]==6) ++i;
-     }
-     else {
-      while ((state->sign)[i]==2) ++i;
-     }
-     if (k==14 || k==26) goto FOURX;
-     c= (state->crsbuf)[i];
-     p= c+4;
-     if (*p==*c || p[2]==c[2]){
-      if (*p==p[2] && *c==c[2]) g=3;
-      else {
-       h=4;
-       if ((state->sign)[i]==6) m= -1;
-      }
-     }
-     else {
-      g=2;
-      j=0;
-      if ((state->sign)[*c]!=(state->sign)[i]) j=4;
-      k= c[j];
-      if ((state->crsbuf)[k][j]!=i){
-       if ((state->sign)[i]==6) m= -1;
-      }
-      else if ((state->sign)[i]==2) m= -1;
-     }
-    }
-    if (g==1){
-     if (h==0 && (state->sign)[i]==2) m= -1;
-     i=j=k= 5;
-     c= state->t;
-     while (j!=0) c[--j]=0;
-     while (k--!=0){
-      j= (state->sign)[k]; /* trefs + circles have fake bigons at all crossings */
-      p= (state->crsbuf)[k]; /* so find all fake bigons */
-      if (p[1]==(j^4) && (*p==p[2] || *p==p[6])) c[k]=c[*p]= 1;
-      if (p[5]==j && p[4]==p[j]) c[k]=c[p[4]]= 1;
-     }
-     while (--i>=0 && c[i]!=0);
-     if (i>=0){
-FOURX: /* found twisted 3 link -- "squish" twist before making polynomial */
-      while (++i!=6) (state->sign)[i-1]= (state->sign)[i];
-      (state->numcrs)=4;
-      g= -3;  /* flag for 4 crossing 3 links */
-     }
-     else {
-      p= *(state->crsbuf);
-      if (n==4 || (n==8 && *p==p[4] && p[2]==p[6])) g=3;
-     }
-    }
-   }
-   else g= -1; /* it's a knot! */
-  }
-  i= (*(state->sign))/2 -2;
-  k= xpow;
-  n=ypow;
-  p= *(state->crsbuf);
-  if ((state->numcrs)==5){
-   if (g<0){ /* knots */
-    if (i>0){
-     if (*p==p[6] && p[2]==p[4] && p[10]==p[12]) g= -2;
-    }
-    else if (*p==p[2] && p[4]==p[6] && p[8]==p[10]) g= -2;
-    if (g== -1){ /* knot five-two */
-      addin(lngi,(short)(n-i*6),k,0,0,state);      /* the flags at the end of addin  */
-      addin(lngi,(short)(n-i*4),k,-1,2,state);     /* let you do two addins at once, */
-      addin((long)-lngi,(short)(n-i*2),k,-1,2,state);    /* for addins with equal ypows.   */
-    }
-    else { /* knot five-one */
-     k+=2;
-     addin((long)(-4*lngi),(short)(n-i*4),k,0,0,state);
-     addin((long)-lngi,(short)(n-i*6),k,-2,-2,state);
-     addin(lngi,(short)(n-i*4),(short)(k+2),3,-4,state);
-    }
-   }
-   else { /* links */
-    if (g==1){ /* trefoil + circle */
-     if (h!=0){
-       addin(lngi,(short)(n-m*3),++k,-1,-2,state);
-       addin((long)(3*lngi),(short)(n-m),k,-1,-2,state);
-       addin(lngi,(short)(n+m),k,-2,-2,state);
-       addin((long)-lngi,(short)(n-m),(short)(k+2),0,0,state);
-     }
-     else {
-       addin((long)-lngi,(short)(n-m*7),--k,0,0,state);
-       addin((long)(-3*lngi),(short)(n-m*5),k,0,0,state);
-      k+=2;
-      addin((long)(3*lngi),(short)(n-m*3),k,0,0,state);
-      addin((long)(2*lngi),(short)(n-m*5),k,0,0,state);
-      addin((long)-lngi,(short)(n-m*3),(short)(k+2),2,-4,state);
-     }
-    }
-    else if (g==2){ /* 2 component link five-one */
-      addin((long)-lngi,(short)(n+m),--k,-2,2,state);
-      addin((long)-lngi,(short)(n-m),k,-1,2,state);
-      addin(lngi,(short)(n+m*3),(short)(k+2),0,0,state);
-      addin((long)-lngi,(short)(n+m),(short)(k+4),0,0,state);
-    }
-    else { /* trefoil and circle + circle */
-     i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
-     m=1;
-     if (i<20){
-      m= -1;
-      i= 40-i;
-     }
-     j= k-2;
-     if (i!=30){
-       addin(lngi,(short)(n-m*4),j,-1,2,state);
-       addin((long)(4*lngi),(short)(n-m*2),j,-1,2,state);
-       addin((long)(5*lngi),n,j,0,0,state);
-       addin((long)-lngi,(short)(n+m*2),k,-2,-2,state);
-      k+=2;
-      addin(lngi,n,k,-4,-2,state);
-      addin(lngi,(short)(n-m*2),k,0,0,state);
-     }
-     else {
-       addin(lngi,(short)(n-m*8),j,0,0,state);
-       addin((long)(5*lngi),(short)(n-m*4),j,0,0,state);
-       addin((long)(2*lngi),(short)(n-m*2),j,0,0,state);
-       addin((long)(-2*lngi),(short)(n-m*6),k,-2,-2,state);
-      k+=2;
-      addin(lngi,(short)(n-m*4),k,-5,-2,state);
-      addin(lngi,(short)(n-m*2),k,-3,-2,state);
-     }
-    }
-   }
-  }
-  else if ((state->numcrs)==4){
-   if (g==0){ /* knot 4-1 */
-     addin((long)-lngi,(short)(n-2),k,0,0,state);
-     addin((long)-lngi,n,k,-1,2,state);
-     addin((long)-lngi,(short)(n+2),k,0,0,state);
-   }
-   else if (g>0){
-    i=1;
-    if (*(state->crsbuf)[*p]==0){
-     if (*(state->sign)==6) i= -1; /* 2 link 4^2-1 */
-     addin((long)-lngi,(short)(n+i*3),--k,-1,2,state);
-     addin((long)-lngi,(short)(n+i*5),k,0,0,state);
-     addin((long)-lngi,(short)(n+i),(short)(k+2),0,0,state);
-    }
-    else {
-     if (*(state->sign)==2) i= -1;
-     addin((long)-lngi,(short)(n-i*5),--k,-1,2,state);
-     addin((long)-lngi,(short)(n-i*3),k,-3,2,state);
-     addin((long)-lngi,(short)(n-i*3),(short)(k+4),0,0,state);
-    }
-   }
-   else if (g== -3){ /* 3 link */
-    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
-    i= 8- j/2;
-    if (i==0){
-      addin((long)-lngi,(short)(n-2),k,-1,-2,state);
-      addin((long)(-2*lngi),n,k,-1,-2,state);
-      addin((long)-lngi,(short)(n+2),k,-1,-2,state);
-      addin(lngi,n,(short)(k+2),0,0,state);
-    }
-    else {
-     j= k-2;
-     addin(lngi,(short)(n-2+i),j,0,0,state);
-     addin((long)(2*lngi),(short)(n+i),j,-1,2,state);
-     addin(lngi,(short)(n+2+i),j,0,0,state);
-     addin(lngi,(short)(n+i/2),(short)(k+2),-2,-2,state);
-    }
-   }
-   else { /* circle + circle  and  circle + circle */
-    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
-    i= 8- j/2;
-    if (i==0){
-      addin(lngi,(short)(n-3),--k,-1,-2,state);
-      addin((long)(3*lngi),(short)(n-1),k,-1,-2,state);
-      addin((long)(3*lngi),(short)(n+1),k,-1,-2,state);
-      addin(lngi,(short)(n+3),k,-1,-2,state);
-     k+=2;
-     addin((long)-lngi,(short)(n-1),k,0,0,state);
-     addin((long)-lngi,(short)(n+1),k,0,0,state);
-    }
-    else {
-     k-=3;
-     addin((long)-lngi,(short)(n-3+i),k,0,0,state);
-     addin((long)(-3*lngi),(short)(n-1+i),k,0,0,state);
-     addin((long)(-3*lngi),(short)(n+1+i),k,0,0,state);
-     addin((long)-lngi,(short)(n+3+i),k,0,0,state);
-     k+=2;
-     addin((long)(2*lngi),(short)(n-2+(i*3)/4),k,0,0,state);
-     addin((long)(4*lngi),(short)(n+(i*3)/4),k,0,0,state);
-     addin((long)(2*lngi),(short)(n+2+(i*3)/4),k,0,0,state);
-     k+=2;
-     addin((long)-lngi,(short)(n-1+i/2),k,0,0,state);
-     addin((long)-lngi,(short)(n+1+i/2),k,0,0,state);
-    }
-   }
-  }
-  else if ((state->numcrs)==3){
-    addin((long)-lngi,(short)(n-i*4),k,0,0,state);
-    addin(lngi,(short)(n-i*2),(short)(k+2),-2,-2,state);
-  }
-  else if ((state->numcrs)!=0){
-    addin(lngi,(short)(n-i),--k,-1,2,state);
-    addin(lngi,(short)(n-i*3),k,0,0,state);
-  }
-  else addin(lngi,n,k,0,0,state);
-  if ((state->notbeg)!=0){
-   (state->numcrs)= (state->buf)[(state->notbeg)-1];
-   (state->numlps)= (state->buf)[(state->notbeg)-4];
-   (state->poslnk)= (state->buf)[(state->notbeg)-5];
-   (state->neglnk)= (state->buf)[(state->notbeg)-6];
-   xpow= (state->buf)[(state->notbeg)-3];
-   ypow= (state->buf)[(state->notbeg)-2];
-   if ((state->buf)[(state->notbeg)-7]!=0) ypow= -ypow;
-   if ((state->buf)[(state->notbeg)-8]!=0) xpow|= 512;
-   (state->notbeg)-= 8+ (state->numcrs)*8;
-   i=0;
-   p= *(state->crsbuf);
-   c= (state->buf)+(state->notbeg);
-   while (i!=(state->numcrs)){
-    j=4;
-    while (j--!=0){
-     *(p++)= *(c++);
-     *(p++)= *(c++)&6;
-    }
-    (state->sign)[i++]= (*(c-7))>>4;
-   }
-   if ((state->numcrs)>chksiz){
-    lp1= *(state->poly);
-    sp= *(state->bilion);
-    lngi= XCNT*XCNT;
-    while (lngi--!=0){
-     if (*lp1> cmpval){
-      if ((*sp)++ == MAXBIL) (state->count)[1]=1;
-      *lp1-= cmpval;
-     }
-     else if (*lp1< -cmpval){
-      if ((*sp)-- == -MAXBIL -1) (state->count)[1]=1;
-      *lp1+= cmpval;
-     }
-     ++lp1;
-     ++sp;
-    }
-    /* if (stats>0){ */
-/*      lseek (stats,(long)(strlen(nbuf)+1),0); */
-/*      lngi=0; */
-/*      i= XCNT-1; */
-/*      while (count[i]==0) --i; */
-/*      while (i!=0){ */
-/*       write (stats,t,ntc((long)(i+1),t),state); */
-/*       write (stats,"     ",5); */
-/*       write (stats,t,ntc(count[i],t)+1,state); */
-/*       lngi+= count[i--]; */
-/*      } */
-/*      write (stats,"\ntotal: ",8); */
-/*      write (stats,t,ntc(lngi,t,state)+1); */
-/*      write (stats,"\nbiggest stacked knots:\n",24); */
-/*      i=12; */
-/*      sp= (state->bstlst); */
-/*      while (i--!=0) sp[i]=0; */
-/*      lngi=notbeg-1; */
-/*      while (lngi>0){ */
-/*       k= (state->buf)[lngi]; */
-/*       sp[++i]= k; */
-/*       lngi-= k*8 + 8; */
-/*       if (i==10) i= -1; */
-/*      } */
-/*      k= 0; */
-/*      while (*sp!=0){ */
-/*       j= ntc((long) *(sp++),t,state); */
-/*       k+=j+1; */
-/*       write (stats,t,j); */
-/*       write (stats," ",1); */
-/*      } */
-/*      write (stats,"                                            ",44-k); */
-/*      write (stats,"\n",1); */
-/*     } */
-   }
-  }
-  else (state->numcrs)=0;
- }
- else {
-/* locate fake bigons, 0 branch bigons, and 3 cross circuits for (state->bstlst) */
-  k= (state->numcrs);
-  p= (state->crsbuf)[k]; /* only set k, other crossings will be set in their loops   */
-  c= (state->sign)+k;    /* If a tangle is added to the knot with twists, I can find */
-  while (k--!=0){ /* it sometimes and remove the twists! */
-   n= (state->bstlst)[k];
-   p-=8;
-   j= *--c;
-   i= *p;
-   g= p[4];
-   if (g==p[j]){   /* good fake bigon behind me */
-    if (p[5]!=j){
-     c= (state->crsbuf)[g];  /* wrong! twisted tangle ahead! remove twists! */
-     mrecon (p+(j^4),c+ (p[j+1]^4),state);
-     mrecon (p,c+ (p[5]^4),state);
-     sqush2 (k,g,state);
-     goto STEP1;
-    }
-    if (n>0) n= -4-n;
-    else n+= -8;
-   }
-   if (p[j]==(state->crsbuf)[g][(state->sign)[g]^j^4] && (p[5]&2)!=0 && nopro!=(state->numcrs)){
-    if ((p[j+1]&2)!=0){
-     if (n<0) n-=12;
-     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
-    }
-    else { /* 0 branch has fake bigon */
-     g=1;
-     if (p[5]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
-     if (n<0) n-=g;
-     else if (n>0) n+=g;
-    }
-   }
-   j^=4;
-   if (p[j]==i){  /* good fake bigon ahead of me */
-    if (p[1]!=j){
-     q= (state->crsbuf)[i];  /* wrong! twisted tangle behind! remove twists! */
-     mrecon (p+4,q+ (p[1]^4),state);
-     mrecon (p+ *c,q+ (p[j+1]^4),state);
-     sqush2 (k,i,state);
-     goto STEP1;
-    }
-    if (n>0) n= -4-n;
-    else n+= -8;
-   }
-   else if (p[j^4]==i){  /* bad fake bigon ahead */
-    if (n<0) n-= 8;
-    else if (n<8) n= 8;
-    if ((state->bstlst)[i]<0) (state->bstlst)[i]-=8;     /* mutualize */
-    else if ((state->bstlst)[i]<8) (state->bstlst)[i]=8;
-   }
-   if (p[j]==(state->crsbuf)[i][(state->sign)[i]^j^4] && (p[1]&2)!=0 && nopro!=(state->numcrs)){
-    if ((p[j+1]&2)!=0){
-     if (n<0) n-=12;
-     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
-    }
-    else { /* 0 branch has fake bigon (1 point) */
-     g=1;
-     if (p[1]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
-     if (n<0) n-=g;
-     else if (n>0) n+=g;
-    }
-   }
-   (state->bstlst)[k]=n;
-  }
-  c= (state->stc);
-  i= -8;
-  if (nopro==(state->numcrs)) m=0;
-  while (m>0){
-   m-=3;
-   n= *(c++);
-   g= *(c++);
-   p= (state->crsbuf)[n];  /* busting vertex of 3 cross circuit makes a removeable */
-   sp= (state->bstlst)+n;  /* + or - link on the 0 branch -- free 2 reduction */
-   k= p[*(c++)];
-   j= p[g];
-   if ((p[g|1]&2) != 0) p= (state->crsbuf)[j];
-   else p= (state->crsbuf)[j]+(state->sign)[j];
-   if (*p==k) --i;
-   if (*sp<0) *sp+= i-4;
-   else if (*sp==0) *sp= 4-i;
-   else *sp= i- *sp;
-  }
-  i= nopro= (state->numcrs);
-  k=n= 0;
-  sp= (state->bstlst)+(state->numcrs);
-  while (i--!=0){
-   if (*--sp<n){
-    n= *sp;
-    j=i;
-   }
-   else if (*sp>k){
-    k= *sp;
-    m=i;
-   }
-  }
-  if (n==0){
-   if (k==0){
-    j= dspair[2];
-    nopro=0;
-   }
-   else j=m;
-  }
-  else if (n>-14 && k>12) j=m; /* since exponential growth is 1.41^n */
-  ypow += bust(j,xpow,ypow,state);
-  xpow^=512;
-  ++(state->count)[(state->numcrs)-1];
- }
- // This point must be reached fairly often, so we're going to put in the timeout code here.
- end = clock();
- cpu_time_used = ((double)(end - start))/CLOCKS_PER_SEC;
- if (timeout > 0 && cpu_time_used > timeout) {
-   free(outpoly);
-   free(state);
-   return NULL;
- }
- if ((state->numcrs)!=0) goto STEP1;
- goto NEWNOT;
-}
-
-void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state)
-/* short top, vnum, vbrnch;
-   unsigned char *ovundr;
-   int flag; */
-{
- register short i, j, k, h, m, n;
- register unsigned char *s, *c, *p;
- register long *lp1, *lp2;
- short g;
- if ((m=vbrnch) >=0){
-  i= vnum;
-  s= (state->crsbuf)[i];
-  k= s[m];
-  g= s[m|1];
-  if (m!=0) c= s+4;
-  else c= s+((state->sign)[i]^4);
-  p= (state->crsbuf)[k]+g;
-  h= *p= *c;
-  n= p[1]= c[1];
-  p= (state->crsbuf)[h]+n;
-  *p= k;
-  p[1]= g;
-  s[6]= s[4]= s[2]= *s= i;
- }
- else ++(state->numlps);
- s= (state->clist);
- j= -1;
- while (top-1 > (i=k= ++j)){
-  while (++i<top){
-   if (s[i] < s[k]) k=i;
-  }
-  if (k!=j){    /* order crossings in (state->clist) */
-   i= s[j];
-   s[j]= s[k];
-   s[k]=i;
-   m= ovundr[j];
-   ovundr[j]= ovundr[k];
-   ovundr[k]= m;
-  }
- }
-      /* relink */
- m= top;
- while (m--!=0){
-  i= s[m];
-  g= ovundr[m];
-  k= (state->crsbuf)[i][g];
-  j= (state->crsbuf)[i][g|1];
-  h= (state->crsbuf)[k][j]= (state->crsbuf)[i][g|4];
-  n= (state->crsbuf)[k][j|1]= (state->crsbuf)[i][g|5];
-  (state->crsbuf)[h][n]= k;
-  (state->crsbuf)[h][n|1]= j;
- }
- if (flag!=0) return;
-      /* squish crossings out of the list */
- i= *s;
- lp1= (long *) (state->crsbuf)[i];
- lp2=lp1+(state->suplng);
- p= (state->sign)+i;
- c=p+1;
- j= 0;
- k=1;
- while (++i!=(state->numcrs)){
-  if (s[k]== i){
-   lp2+= (state->suplng);
-   ++c;
-   if (++k==top) k=0;
-  }
-  else {
-   *(lp1++)= *(lp2++);
-   if ((state->suplng)==2) *(lp1++)= *(lp2++);
-   *(p++)= *(c++);
-  }
- }
-     /* renumber branch pointers (subtract 1 if the crossing was after) */
- (state->numcrs)-= top;
- k= (state->numcrs);
- c= (state->crsbuf)[k];
- while (k--!=0){
-  j=5;
-  while (--j!=0){
-   c-=2;
-   i=top;
-   s= (state->clist)+i;
-   while (i--!=0){
-    if (*c> *--s) --*c;
-   }
-  }
- }
- return;
-}
-
-int ntc(long i,char *buf,lmpoly_state_t *state)
-{
- long j;
- int r;
- char *p;
- p=buf;
- r=0;
- if (i<0){
-  i= -i;
-  r=1;
-  *(p++)= '-';
- }
- if (i>999999999) j=1000000000;
- else if (i>99999999) j=100000000;
- else if (i>9999999) j=10000000;
- else if (i>999999) j=1000000;
- else if (i>99999) j=100000;
- else if (i>9999) j=10000;
- else if (i>999) j=1000;
- else if (i>99) j=100;
- else if (i>9) j=10;
- else j=1;
- while (j!=0){
-  ++r;
-  *(p++)= (i/j)%10+0x30;
-  j/=10;
- }
- *p='\n';
- return (r);
-}
-
-void delpow(lmpoly_state_t *state)
-{
- register long *lp1, *lp2, *lsp, *osp;
- register short i, j, k, m, s, mpos;
- short numlnk, mpow, u, v, x, y, z, order[2], prslen[2], pstlen[2];
- lp1=(state->b);
- if ((state->numlps)<4){
-  if ((state->numlps)==1){
-   *(lp1++)= -1;
-   *lp1= -1;
-  }
-  else if ((state->numlps)==3){
-   *(lp1++)= -1;
-   *(lp1++)= -3;
-   *(lp1++)= -3;
-   *lp1= -1;
-  }
-  else {
-   *(lp1++)= 1;
-   *(lp1++)= 2;
-   *lp1= 1;
-  }
- }
- else {
-  *lp1= 1;
-  (state->b)[1]= 4;
-  (state->b)[2]= 6;
-  k= (state->b)[3]= 4;
-  (state->b)[4]= 1;
-  while (k++!=(state->numlps)){
-   j=k;
-   (state->b)[j]=1;
-   while (--j!=0) (state->b)[j]+= (state->b)[j-1];
-  }
-  if (((state->numlps)&1)!=0) while (--k>=0) (state->b)[k]= -(state->b)[k];
- }
- *prslen= *pstlen= prslen[1]= pstlen[1]= mpos= mpow= 0;
- osp= (state->b)+ (state->numlps)+1;
- if ((state->poslnk)>(state->neglnk)){
-  order[1]= (state->poslnk);
-  *order= (state->neglnk);
- }
- else {
-  order[1]= (state->neglnk);
-  *order= (state->poslnk);
-  mpos=2;
- }
- z=2;
- while (z--!=0){
-  numlnk=order[z];
-  mpos^=2;
-  while (numlnk--!=0){
-   m= ++mpow;
-   s=j=k= (state->numlps)+1;
-   u= *pstlen;
-   v= pstlen[1];
-   ++prslen[z];
-   *pstlen= x= *prslen;
-   pstlen[1]= y= prslen[1];
-   lp2= osp;
-   lp1= lp2+ j+ m;
-   if (z==0) lp1+= order[1];
-   osp= lp1;
-   while (j--!=0) *--lp1=0;
-   while (m--!=0){
-    i=j= s;
-    lsp= lp1;
-    if (mpos== (z|2) && y>0) *--lsp=0;
-    if (mpos!=0) lp1+=k;
-    else lp1+=i;
-    while (j--!=0) *--lp1-= *--lp2;
-    lp2+=i;
-    lp1= lsp;
-    *--lp1=0;
-    while (i--!=0) *--lp1= *--lp2;
-    lp1= lsp;
-    lsp= lp2;
-    lp2= lp1-1;
-    j=s;
-    while (j--!=0) *--lp1+= *--lp2;
-    --lp1;
-    if (x-->0) ++k;
-    if (y-->0){
-     ++k;
-     if (mpos==z) *--lp1=0;
-    }
-    if (u-->0) ++s;
-    if (v-->0) ++s;
-    lp2=lsp;
-   }
-  }
- }
-}
-
-void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state)
-/*short ypow, xpow;
-long kcoeff;
-int mult, reach;*/
-{
-  register long *lp1, *lp2 = NULL, addon, *p; // Added init for lp2, JC.
-  register short i, j, k, numlnk, loops;
-  i= (state->poslnk);
-  k= (state->neglnk);
-  numlnk= i+k;
-  loops= (state->numlps)+ numlnk;
-  ypow+= XCNT-xpow-1+(state->lowx)+ 2*(k-i);
-  xpow-=(state->lowx)+loops;
-  p=(state->b);
-  while (numlnk-->=0){
-    if (reach!=0) lp2= (state->poly)[xpow+reach]+ypow-reach;
-    lp1= (state->poly)[xpow]+ ypow;
-    j= loops;
-    while (j-->=0){
-      addon= kcoeff* *(p++);
-      *lp1+= addon;
-      lp1+=2;
-      if (reach!=0){
-	*lp2+= mult*addon;
-	lp2+=2;
-      }
-    }
-    if (--i<0) --loops;
-    if (--k<0) --loops;
-    else ypow-=2;
-    xpow+=2;
-  }
-}
-
-void untwst(short l,short n,short i,short ex,lmpoly_state_t *state)
-/* short l, n, i, ex; */
-{
- register unsigned char *pl, *pn;
- register short g, h, m, k, d, e;
- short j;
- j= (state->sign)[i]; /* flip 3 crossing circuits */
- k= j^ex;
- ex^=4;
- m= j^ex;
- if ((state->sign)[l]-ex==2){
-  g= j^2;
-  h= g^4;
-  j= 6;
- }
- else {
-  h= j^2;
-  g= h^4;
-  j= 2;
- }
- pl= (state->crsbuf)[l];
- pn= (state->crsbuf)[n];
- d= pl[m];
- e= pl[m|1];
- pl[m]= pn[g];
- pl[m|1]= pn[g|1];
- if (d!=n){
-  pn[g]= d;
-  pn[g|1]= e;
- }
- else {
-  pn[g]= l;
-  pn[g|1]= k;
- }
- (state->crsbuf)[pl[m]][pl[m|1]]= l;
- (state->crsbuf)[pl[m]][pl[m|1]|1]= m;
- d= pn[h];
- e= pn[h|1];
- pn[h]= pl[k];
- pn[h|1]= m= pl[k|1];
- if (d!=l){
-  pl[k]= d;
-  pl[k|1]= e;
- }
- else {
-  pl[k]= n;
-  pl[k|1]= g;
- }
- (state->crsbuf)[pn[h]][m]= n;
- (state->crsbuf)[pn[h]][m|1]= h;
- h= pn[g|1];
- (state->crsbuf)[pn[g]][h]= n;
- (state->crsbuf)[pn[g]][h|1]= g;
- d= pl[k];
- e= pl[k|1];
- (state->crsbuf)[d][e]= l;
- (state->crsbuf)[d][e|1]= k;
- pl[ex]= g= (state->crsbuf)[i][ex];
- pl[ex|1]= h= (state->crsbuf)[i][ex|1];
- (state->crsbuf)[g][h]= l;
- (state->crsbuf)[g][h|1]= ex;
- pn[j]= g= (state->crsbuf)[i][k];
- pn[j|1]= h= (state->crsbuf)[i][k|1];
- (state->crsbuf)[g][h]= n;
- (state->crsbuf)[g][h|1]= j;
-}
-
-int conchk(lmpoly_state_t *state)
-{
- register short i, j;
- int vnum, vbrnch, top;
- char str[20], local_cbuf[XCNT*2];
- vnum=vbrnch= 0;
- (state->lowx)= 1;
- i=top= (state->numcrs)*2;
- while (i>=0) local_cbuf[i--]=0;
- i=0;
- while (i!=top){
-  --(state->lowx);
-  while (local_cbuf[i]==0){
-   local_cbuf[i]=1;
-   i=vnum;
-   j=vbrnch;
-   vnum= (state->crsbuf)[i][j];
-   vbrnch= (state->crsbuf)[i][j|1];
-   if (vnum>=(state->numcrs)){
-    write (1,"error at crossing #",19);
-    write (1,str,ntc((long)(i+1),str,state));
-    write (1,", knot can't have a crossing #",30);
-    write (1,str,ntc((long)(vnum+1),str,state)+1);
-    return (1);
-   }
-   if ((state->crsbuf)[vnum][vbrnch]!=i || ((state->crsbuf)[vnum][vbrnch|1])!=j){
-    write (1,"the possible connection from branch ",36);
-    write (1,str,ntc((long)(i+1),str,state));
-    *str= 'a'+(j>>1);
-    write (1,str,1);
-    write (1," to branch ",11);
-    write (1,str,ntc((long)(vnum+1),str,state));
-    *str= 'a'+(vbrnch>>1);
-    write (1,str,1);
-    write (1," is inconsistent\n",17);
-    return (1);
-   }
-   if (vbrnch==0){
-    write (1,"a-c part of crossing #",22);
-    write (1,str,ntc((long)(vnum+1),str,state));
-    write (1," is oriented backwards\n",23);
-    write (1,"with respect to crossing #",26);
-    write (1,str,ntc((long)(i+1),str,state)+1);
-    return (1);
-   }
-   else if (vbrnch== ((state->sign)[vnum] & 6)){
-    write (1,"b-d part of crossing #",22);
-    write (1,str,ntc((long)(vnum+1),str,state));
-    write (1," is oriented backwards\n",23);
-    write (1,"with respect to crossing #",26);
-    write (1,str,ntc((long)(i+1),str,state)+1);
-    return (1);
-   }
-   i= (vnum<<1) + ((vbrnch>>1)&1);
-   vbrnch^=4;
-  }
-  i=0;
-  while (local_cbuf[i]!=0) ++i;
-  vnum= i/2;
-  if ((i&1)!=0) vbrnch= (state->sign)[vnum] & 6;
-  else vbrnch=0;
- }
- return(0);
-}
-
-void mypause(int sig)
-{
-  //(state->restrt)=1;
- //signal(SIGTERM,pause);  /* pause is now a system function */
- signal(sig,mypause);
-}
-
-int bust(short tobust,short xpow,short ypow,lmpoly_state_t *state)
-/* short tobust, xpow, ypow; */
-{
- register unsigned char *fastp, *c;
- register long *lp1, *lp2;
- register short i, j, m, k, l, n, *sp;
- unsigned char *inbuf[XCNT], tsign[XCNT], *bstcrs;
- int dir;
- //long lngi;
- bstcrs= (state->crsbuf)[tobust];
- fastp=(state->sign);
- c=tsign;
- lp2= (long *) *(state->crsbuf);
- lp1= (long *) ((state->buf)+(state->notbeg));
- j=0;
- while (j!=(state->numcrs)){
-  if (j==tobust) ++fastp;
-  *(c++)= *(fastp++);
-  inbuf[j++]= (unsigned char *) lp1;
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
- }
- fastp= bstcrs;
- l= (state->sign)[tobust]/2;
- dir= 2-l;
- m= fastp[7-l];
- n= fastp[8-l];
- j= fastp[3*l-3];
- k= fastp[3*l-2];
- inbuf[j][k]= m;
- inbuf[j][k|1]= n;
- inbuf[m][n]= j;
- inbuf[m][n|1]= k;
- m= fastp[5-l];
- n= fastp[6-l];
- j= fastp[3-l];
- k= fastp[4-l];
- inbuf[j][k]= m;
- inbuf[j][k|1]= n;
- inbuf[m][n]= j;
- inbuf[m][n|1]= k;
- k= (state->numcrs)-1;
-     /* squish crossing out of the list (tsign has already been squished) */
- i= k-tobust;
- lp1= (long *) inbuf[tobust];
- lp2=lp1+(state->suplng);
- while (i--!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
- }
-     /* renumber branch pointers (subtract 1 if the crossing was after) */
- (state->notbeg)+= (state->numcrs)*8;
- fastp= *inbuf;
- while (++i!=k){
-  fastp[1]|= tsign[i]<<4;
-  j=5;
-  while (--j!=0){
-   if (*fastp>=tobust) --*fastp;
-   fastp+=2;
-  }
- }
- fastp= (state->buf)+(state->notbeg)-7;
- *fastp= *(fastp-1)=0;
- if (ypow+dir<0){
-  *fastp=1;
-  (state->buf)[(state->notbeg)-2]= -ypow-dir;
- }
- else (state->buf)[(state->notbeg)-2]= ypow+dir;
- if ((xpow&512) ==0) (state->buf)[(state->notbeg)-8]=1;
- *++fastp= (state->neglnk);
- *++fastp= (state->poslnk);
- *++fastp= (state->numlps);
- *++fastp= xpow+1;
- (state->buf)[(state->notbeg)-1]= i;
- fastp= bstcrs;
- sp= (short *) fastp;
- j= *sp;
- *sp= sp[l];
- sp[l]= sp[2];
- sp[2]= sp[l^2];
- sp[l^2]= j;
- (state->sign)[tobust]^=4;
- (state->crsbuf)[*fastp][fastp[1]|1]=0;
- (state->crsbuf)[fastp[2]][fastp[3]|1]=2;
- (state->crsbuf)[fastp[4]][fastp[5]|1]=4;
- (state->crsbuf)[fastp[6]][fastp[7]|1]=6;
- return (dir*2);
-}
-
-void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state)
-/*unsigned char *c, *p;*/
-{
- register short j, k, m, n;
- register unsigned char *ccb;
- k= *c;
- j= c[1];
- ccb= (state->crsbuf)[k]+j;
- n= *ccb= *p;
- m= ccb[1]= p[1];
- ccb= (state->crsbuf)[n]+m;
- *ccb= k;
- ccb[1]= j;
-}
-
-void squish(short sqush,lmpoly_state_t *state)
-/* short sqush; */
-{
- register short i, j, tosqsh;
- register unsigned char *p, *c;
- register long *lp1, *lp2;
-       /* squish crossing out of the list */
- tosqsh= sqush;
- j= --(state->numcrs)-tosqsh;
- lp1= (long *) (state->crsbuf)[tosqsh];
- lp2=lp1+(state->suplng);
- p= (state->sign)+tosqsh;
- c=p+1;
- while (j--!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
-  *(p++)= *(c++);
- }
-    /* renumber branch pointers (subtract 1 if the crossing was after) */
- i= (state->numcrs);
- p= (state->crsbuf)[i];
- while (i--!=0){
-  j=5;
-  while (--j!=0){
-   p-=2;
-   if (*p>=tosqsh) --*p;
-  }
- }
-}
-
-void sqush2(short n,short g,lmpoly_state_t *state)
-/* short n, g; */
-{
- long *lp1, *lp2;
- register unsigned char *p, *c;
- register short m, i, j;
-     /* squish crossings out of the list */
- i= n;
- m= g;
- if (m>i){
-  j=m;
-  m=i;
-  i=j;
- }
- lp1= (long *) (state->crsbuf)[m];
- lp2=lp1+(state->suplng);
- p=(state->sign)+m;
- c=p+1;
- j= i-m;
- while (--j!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
-  *(p++)= *(c++);
- }
- lp2+=(state->suplng);
- ++c;
- j= (state->numcrs)-i;
- (state->numcrs)-=2;
- while (--j!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
-  *(p++)= *(c++);
- }
-    /* renumber branch pointers (subtract 1 if the crossing was after) */
- p= (state->crsbuf)[(state->numcrs)];
- n= (state->numcrs);
- while (n--!=0){
-  j=5;
-  while (--j!=0){
-   p-=2;
-   if (*p>=i) --*p;
-   if (*p>=m) --*p;
-  }
- }
-}
-
-void triple(short m,short i,unsigned char *p,lmpoly_state_t *state)
-/*short m, i;
-  unsigned char *p; */
-{
- register unsigned char *crsi, *crsk;
- register short j, d, e, n, h, k;
- crsi= p;
- n= m^4;
- k= crsi[m];
- crsk= (state->crsbuf)[k];
- j= crsi[m|1];
- d= crsk[j]= crsi[n];
- e= crsk[j|1]= crsi[n|1];
- (state->crsbuf)[d][e]= k;
- (state->crsbuf)[d][e|1]= j;
- j^=4;
- d= crsi[m]= crsk[j];
- e= crsi[m|1]= crsk[j|1];
- (state->crsbuf)[d][e]= i;
- (state->crsbuf)[d][e|1]= m;
- crsi[n]= k;
- crsi[n|1]= j;
- crsk[j]= i;
- crsk[j|1]= n;
- j^=2;
- n= crsk[j];
- h= crsk[j|1]^4;
- d= crsk[j]= (state->crsbuf)[n][h];
- e= crsk[j|1]= (state->crsbuf)[n][h|1];
- (state->crsbuf)[d][e]= k;
- (state->crsbuf)[d][e|1]= j;
- j^=4;
- n= crsk[j];
- h= crsk[j|1]^4;
- d= crsk[j]= (state->crsbuf)[n][h];
- e= crsk[j|1]= (state->crsbuf)[n][h|1];
- (state->crsbuf)[d][e]= k;
- (state->crsbuf)[d][e|1]= j;
- j=m^2;
- n= crsi[j];
- h= crsi[j|1]^4;
- d= crsi[j]= (state->crsbuf)[n][h];
- e= crsi[j|1]= (state->crsbuf)[n][h|1];
- (state->crsbuf)[d][e]= i;
- (state->crsbuf)[d][e|1]= j;
- j^=4;
- m= crsi[j];
- h= crsi[j|1]^4;
- d= crsi[j]= (state->crsbuf)[m][h];
- e= crsi[j|1]= (state->crsbuf)[m][h|1];
- (state->crsbuf)[d][e]= i;
- (state->crsbuf)[d][e|1]= j;
- sqush2(n,m,state);
-}
-
-int tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state)
-/* short h, *bstlst, *dspair, *skflag; */
-{
- register short d, g, i, j, m, length, *q, *sp;
- register unsigned char *p, *tp = NULL, *vp; // Added init for tp. JC
- short k = 0, n, lngsum, badcrs = 0, vertex, lngpos = 0, i1, i2, i3, j1, j2, j3;
- sp=q= (state->tt);  /* # of overs and unders were passed in through *(state->tt) and [2] */
- lngsum= n= 0;
- if (*(state->tt) > (state->tt)[2]) n=2;
- else if (*(state->tt) == (state->tt)[2]) lngsum=1;   /* need to test BOTH overs & unders */
- vp= (state->clist);
- vertex=h;
- while (vertex-->0) *(sp++)= *(vp++);   /* make a working copy of (state->clist) */
- i= h-1;
- if ((h&1)!=(length=0)) vertex= (state->clist)[i];
- else {
-  if ((state->donlnk)[XCNT]==0){   /* if my check-off list is now invalid */
-   d= (state->numcrs);             /* re-set it all to 0 */
-   while (d-->0) (state->donlnk)[d]= 0;
-   (state->donlnk)[XCNT]=1;
-  }
-  if (((state->donlnk)[(state->clist)[i]]&((state->t)[i]+2))!=0) return(0);
- }
- m=j= h/2;
- *sp= -1;
- p=state->t;
- while (j-->length){
-  i=2;
-  while (*q==1024){
-   ++q;
-   ++p;
-  }
-  d= *q;
-  if (*(p++)==0) i+= (state->sign)[d];
-  g= (state->crsbuf)[d][i&6];
-  sp= ++q;
-  while (*sp>=0 && *sp!=g) ++sp;
-  if (*sp<0) j= -10;
-  else if (*sp==vertex) length= -1;
-  else *sp= 1024;
- }
- if (j== -11){
-  d=h;
-  sp=q= (state->tt);
-  vp= (state->clist);
-  while (d-->0) *(sp++)= *(vp++);
-  length=0;
-  p=state->t;
-  while (m-->length){
-   i=6;
-   while (*q==1024){
-    ++q;
-    ++p;
-   }
-   d= *q;
-   if (*(p++)==0) i+= (state->sign)[d];
-   g= (state->crsbuf)[d][i&6];
-   sp= ++q;
-   while (*sp>=0 && *sp!=g) ++sp;
-   if (*sp<0) m= -10;
-   else if (*sp==vertex) length= -1;
-   else *sp= 1024;
-  }
-  j-=m;
- }
- if (vertex< (length=lngsum=d=m= 0)){  /* if a link */
-  tp=p= state->t;
-  while ((n^*(p++))==0) ++d;  /* find first bad crossing and move it to the */
-  vp= (state->clist)+d;                /* front so that (state->clist) cannot break a string */
-  --p;                        /* of good crossings in a link from */
-  sp= (state->tt);                     /* (state->clist)[h-1] to (state->clist)[0] */
-  i=m= h-d;
-  while (m-->0){
-   (state->donlnk)[*vp]|= *(p++)+2;  /* also check off all list elements to assure */
-   *(sp++)= *(vp++);        /* this link never comes to tstcir again with */
-  }                         /* a different beginning crossing */
-  m=d;
-  vp= (state->clist);
-  while (m-->0){
-   (state->donlnk)[*vp]|= *tp+2;
-   *(sp++)= *vp;
-   *(vp++)= *(tp++);
-  }
-  p=state->t;
-  while (i-->0) *(p++)= *(tp++);
-  vp= (state->clist);
-  while (d-->0) *(p++)= *(vp++);
-  d=m= 0;
- }
- else {
-  sp= (state->tt);
-  vp= (state->clist);
-  i= h;
-  while (i-->0) *(sp++)= *(vp++);
- }
- p=state->t;
- g= h|1;         /* find the longest good string & put in "length" */
- (state->t)[g]= (state->t)[g-1];   /* also, the longest with only 1 bad crossing in "lngsum" */
- (state->t)[g-1]= n^2;    /* badcrs is the bad crossing in lngsum */
- while (++i<g){
-  if ((n^*(p++)) ==0) ++d;
-  else {
-   if (d>=length){
-    length=d;
-    k= i-d;
-   }
-   if (m+d>=lngsum){
-    lngsum= m+d+1;
-    if (d==0) tp= p-3;  /* tp points to a generic good crossing in lngsum */
-    else tp= p-2;
-    if (d!= (lngpos=i)) badcrs= (state->tt)[i-d-1];
-    else badcrs= (state->tt)[i];
-   }
-   m=d;
-   d=0;
-  }
- }
- i= h/2;
- if (vertex>=0 && length>=i){ /* can this circuit untwist its vertex? */
-   if (k==0 && (*(state->t)^*p)!=0) return (skinny(1,h,(short) 0,state));
-   else if (k+length+1==h && ((state->t)[k]^*p)==0) return (skinny(1,h,i,state));
- }
- if (j==0 && length>=i){     /* circuit is not skinny, and can be skinnied */
-  if (vertex>= (i1=0) && length==i){
-   m= k+i;
-   *(p-1)= *p;     /* infinite loops happen when the loose strand is shared */
-   d= (state->tt)[m-1];        /* between 2 intersecting circuits -- skflag prevents */
-   while (m>=k){           /* looping, allows me to skinny once per bust!   */
-    vp= (state->crsbuf)[(state->tt)[m]];
-    if ((state->t)[m]!=0) j=2;
-    if (vp[j]==d || vp[j^4]==d) m=i1= -1;  /* possible inf. loop circuit! */
-    else j=0;
-    m-=i;
-    if (k==0) d= (state->tt)[h-1];
-    else d=(state->tt)[k-1];
-   }
-  }
-  if (i1== (j=0)) return (skinny(0,h,k,state)); /* OK to skinny it! */
-  if (*skflag==0){
-   *skflag=1;
-   return (skinny(0,h,k,state)); /* OK to do ONE skinny */
-  }
- }
- if (lngsum>=i){
-  if (lngsum == h-2) lngsum=h;   /* a link w/only 2 crossings vanishes! */
-  d= (lngsum-i)*8;  /* and find all the extra benefits of badcrs */
-  if (j==0) ++d;    /* give one point for doing a skinny */
-  if (vertex>=0){
-   if (lngpos==lngsum && (*tp^*p)!=0) d+=4;
-   else if (lngpos+1==h && (*tp^*p)==0) d+=4;
-   else if (lngsum+1==h) d+=4;
-  }
-  if (d==8 && length==lngsum-1) d=0; /* this is really just a fake bigon */
-  if (j==0 && d!=0 && (state->numcrs)+ 2*(i-lngsum)>11) d+=2;
-  if ((k=lngpos-lngsum)!= (m=0) && d!=0){
-   if ((state->t)[k]!=0) m= (state->sign)[(state->tt)[k]];
-   if ((state->crsbuf)[(state->tt)[k]][m] == (state->tt)[k-1]) ++d;
-   if (k!=1 && ((state->t)[k-2]^(state->t)[k-1])!=0) ++d;
-  }
-  if (lngpos+1 != g && d!=0){
-   if ((state->t)[lngpos]!= (m=0)) m= (state->sign)[(state->tt)[lngpos]];
-   if ((state->crsbuf)[(state->tt)[lngpos]][m] == (state->tt)[lngpos-1]) ++d;
-   if (lngpos+2 !=g && ((state->t)[lngpos+1]^(state->t)[lngpos])!=0) ++d;
-  }
-  if (d<6 && j==0){    /* min. one point for making skinny circuits */
-   if (bstlst[badcrs]==0) bstlst[badcrs]= *dspair= 1;
-  }
-  else {
-   *dspair=1;
-   (state->donlnk)[badcrs]=0;  /* from badcrs's perspective, link may be better */
-   if (bstlst[badcrs]<0){
-    if (bstlst[badcrs]> -8-d) bstlst[badcrs]= -8-d;
-   }
-   else if (bstlst[badcrs]<d) bstlst[badcrs]=d;
-  }
- }
- else {
-  k= h/4;
-  if (*dspair<k) k= *dspair;
-  m=1;
-  while (m++<k){
-   tp=state->t;
-   *(state->gapsto)=j= 0;
-   d= m+1;
-   while (--d>0){
-    while ((*(tp++)^n) ==0) ++j;
-    (state->gapsto)[d]= j++;
-   }
-   while (j<g){
-    while ((*(tp++)^n) ==0) ++j;
-    length= (j-(state->gapsto)[d]-i)*4 +2;
-    if (length>0 && (m<*dspair || (m== *dspair && length>=dspair[1]))){
-     if (m<*dspair || length>dspair[1]) dspair[3]=0;
-     *dspair=m;
-     dspair[1]= length;
-     length=lngpos= 0;
-     if (d!=m) lngpos= d+1;
-     j1= j;
-     j2= (state->gapsto)[lngpos];
-     h=m;
-     while (h-->0){
-      if (++lngpos>m) lngpos=0;
-      vertex= (state->tt)[j2];
-      j3= (state->gapsto)[lngpos];
-      lngsum= j1-j3;
-      p= (state->crsbuf)[vertex];
-      i1= (state->sign)[vertex];
-      i2= p[i1];
-      i3= p[i1|1];
-      i1^=4;
-      if ((state->crsbuf)[i2][(i3+i1)&6]== p[4]){
-	//if ((p[5]^i3&2) !=0) lngsum= -1 -lngsum;
-	/* According to wikipedia, the & should come first, so this is */
-	if ((p[5]^(i3&2)) !=0) lngsum= -1 -lngsum;
-       else lngsum= -10 -lngsum;
-      }
-      i2= p[i1];
-      i3= p[i1|1];
-      if ((state->crsbuf)[i2][(i3+i1)&6]== *p){
-	if ((p[1]^(i3&2)) !=0){  // The same is true here
-        if (lngsum<0) lngsum-=5;
-        else lngsum= -1 -lngsum;
-       }
-       else if (lngsum<0) lngsum-= 10;
-       else lngsum= -10 -lngsum;
-      }
-      if (lngsum<0){
-       if (length>lngsum){
-        length= lngsum;
-        badcrs= vertex;
-       }
-      }
-      else if (length>=0 && length<lngsum){
-       length= lngsum;
-       badcrs= vertex;
-      }
-      j1=j2;
-      j2=j3;
-     }
-     i1= dspair[3];
-     if (length<0){
-      if (i1>length){
-       dspair[2]= badcrs;
-       dspair[3]= length;
-      }
-     }
-     else if (i1>=0 && i1<length){
-      dspair[2]= badcrs;
-      dspair[3]= length;
-     }
-     k=0;
-    }
-    (state->gapsto)[d--]= j++;
-    if (d<0) d=m;
-   }
-  }
- }
- return(0);
-}
-
-int skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state)
-/* short lencir, lngpos;
-   int twist; */
-{
- register short a, b, g, n, vnum, dir, *c;
- register unsigned char *p, *q, *cp;
- short i, j, k, m, last, f, v2; //*sp;
- vnum= -1;     /* assume circuit is a link */
- dir= 6;       /* and I will be placing loose strand LEFT of fixed strand */
- if ((lencir&1)!= (b=0)){
-  vnum= (state->tt)[lencir-1];                /* if not a link */
-  if (((state->t)[lencir-1]=(state->t)[lencir]) ==0) b= (state->sign)[vnum];
-    /* tstcir wrecks (state->t)[lencir-1] on non-links but saves a copy! */
- }
- if (vnum>=0){
-  g=vnum;      /* SET DIR PROPERLY!! */
-  while (b>=0){        /* if VERTEX is left of fixed strand, set dir RIGHT */
-   p=(state->crsbuf)[g]+b;  /* there is also a special case if I am untwisting */
-   g= *p;
-   b= *(p+1)^4;  /* walk out from the vertex -- do I run into the circuit? */
-   a=lencir;
-   c= (state->tt);
-   while (a>0 && *(c++)!=g) --a;
-   if (a>0){
-    if (*--c!=vnum){
-     if (b==0) dir= (state->sign)[*c]^4;     /* yes */
-     else dir=b;
-    }
-    else {
-     g= *(state->tt);     /* no -- I ran back into the vertex again */
-     b=6;              /* trace the first left region of the circuit */
-     if (*(state->t)==0) b=(state->sign)[g]-2;
-     n= (state->tt)[lencir-2];  /* does it connect to the other side of the circuit? */
-     while (g!=vnum && g!=n){
-      p= (state->crsbuf)[g]+b;
-      g= *p;
-      b= (*(p+1)+2)&6;
-     }
-     if (g==vnum) dir=2;  /* no -- vertex is left of fixed strand */
-    }
-    b= -1;
-   }
-  }
-  if (twist!=0) dir^=4;
- }
- a=j= lencir/2;   /* to move strand, remove it - then reinsert crossings by */
- p= (state->clist);       /* hand.  Put moveable crossings in (state->clist) & call rmcir */
- c= (state->tt)+lngpos;
- while (a-->0) *(p++)= *(c++);
- --(state->numlps);                   /* rmcir adds a (state->numlps) for fun */
- rmcir (j,(short) 0,a,(state->t)+lngpos,1,state);
- i=k= lngpos+j;
- if (vnum>=0){
-  --lencir;
-  if (lngpos==0 && twist==0) twist= -1;
- }
- else if (i==lencir) i=0;
- if (twist> (m=b= 0) && lngpos!=0){
-  if ((state->t)[lencir]==0) b= (state->sign)[vnum];
-  last= (state->crsbuf)[vnum][b];   /* set last properly if I am untwisting vertex */
-  f= (state->crsbuf)[vnum][b|1];
- }
- else {
-  last= (state->tt)[i];  /* set last to automatically hook up one of the bigon ends */
-  f= 4;
-  if ((state->t)[i]==0) f= (state->sign)[last]^4;
- }
- if ((state->t)[--k]==0) m=4;
- while (j-->0){
-  if (i==lencir) i=0;
-  g=dir;
-  vnum= (state->tt)[i];   /* vnum is the crossing on the fixed strand */
-  b= (state->sign)[vnum];
-  if ((state->t)[i++]==0) g+=b;
-  else b^=4;
-  p= (state->crsbuf)[last]+f;  /* reconnect the loose end from the last loop to the */
-  *(p++)= n= (state->tt)[k--];  /* present n */
-  q= (state->crsbuf)[n];   /* n is the crossing on the loose strand - q points to it */
-  (state->sign)[n]= a= b^m;   /* this calculation for (state->sign)[n] is a 2 step trick */
-  if (m==0){
-   a=0;
-   b=dir;
-  }
-  else b^=dir;
-  *p=a;
-  q[a]= last;   /* reconnect last going FOREWARDS along loose strand from n */
-  q[a+1]=f;
-  f= a^4;
-  g&=6;
-  cp= (state->crsbuf)[vnum]+g;
-  v2= *cp;             /* v2 is one step out the dir branch of fixed strand */
-  *(cp++)= last= n;
-  a= *cp;    /* reconnect vnum to n instead (insert n) */
-  *cp=b;
-  p= q+b;
-  *(p++)= vnum;   /* mutual from n to vnum */
-  *p=g;
-  b^=4;
-  p= (state->crsbuf)[v2]+a;  /* insert n from v2 side */
-  *(p++)= n;
-  *p=b;
-  p= q+b;     /* mutual connect from n */
-  *(p++)= v2;
-  *p=a;
- }
- if (twist!=0){       /* reconnect the loose end properly */
-  vnum=(state->tt)[lencir];
-  if ((state->t)[lencir]!= (dir=b=0)) dir=b=(state->sign)[vnum];
-  if (twist>0){
-   p= (state->crsbuf)[vnum];
-   if (lngpos==0){
-    n= p[b^4];
-    b= p[b^5];
-    if ((state->t)[lencir]== (dir=0)) dir=(state->sign)[vnum];
-   }
-   else {
-    n= (state->tt)[--i];
-    if ((state->t)[i]== (b=0)) b=(state->sign)[n];
-   }
-   a= p[dir];
-   g= p[dir|1];
-   k= p[dir^5];
-   dir= p[dir^4];
-   (state->crsbuf)[a][g]= dir;
-   (state->crsbuf)[a][g|1]=k;
-   (state->crsbuf)[dir][k]=a;
-   (state->crsbuf)[dir][k|1]=g;
-  }
-  else twist=0;
- }
- else if ((state->t)[--i]== (b=0)) b= (state->sign)[(state->tt)[i]];
- if (twist==0) n= (state->tt)[i];
- (state->crsbuf)[last][f]= n;
- (state->crsbuf)[last][f|1]= b;
- (state->crsbuf)[n][b]= last;
- (state->crsbuf)[n][b|1]= f;
- if (twist!=0) squish(vnum,state); /* if I untwisted vertex, now eliminate it */
- return(1);
-}
+/*          FAST VERSION       */
+/* A load balanced calculation of the oriented polynomial  Ver 1.1f */
+/* Bruce Ewing and Kenneth C. Millett  (author: Ewing)    Feb 5, 01 */
+/* Department of Mathematics */
+/* University of California */
+/* Santa Barbara, CA 93106 */
+/* there is a hard limit of 255 crossings in this program */
+
+#include <config.h>
+
+#ifdef HAVE_SIGNAL_H
+#include <signal.h>
+#endif
+
+#ifdef HAVE_SYS_TYPES_H
+#include <sys/types.h>
+#endif
+
+#ifdef HAVE_SYS_TIMES_H
+#include <sys/times.h>
+#endif
+
+#include <stdio.h>
+#include <stdlib.h>
+
+#ifdef HAVE_UNISTD_H
+#include <unistd.h>
+#endif
+
+#ifdef HAVE_FCNTL_H
+#include <fcntl.h>
+#endif
+
+#include <string.h>
+#include <time.h>
+#include <assert.h>
+
+  /* values the USER needs to define!! */
+#define XCNT       250     /* maximum crossings in knot (at most 255) */
+#define XCNTSQ   62500     /* YOU MUST CALCULATE XCNT SQUARED! */
+#define XCSQTR  187500     /* YOU MUST CALCULATE XCNTSQ times THREE! */
+
+
+/* system values -- it's best if these are not touched */
+#define EOFCHR       0     /* integer value of my "end of file" character */
+#define MAXBIL   32767     /* positive value where overflow warning triggers */
+
+#define MAXPOLY  12000     /* Maximum # of characters for output poly */
+
+/* globals */
+
+typedef struct state_struct {
+
+  int readpos;
+  int writepos;
+
+  long plybuf[XCNTSQ], *poly[XCNT], notbeg, count[XCNT], b[XCNT+1];
+  unsigned char sign[XCNT], donlnk[XCNT+1], t[XCNT+2], crsbuf[XCNT+1][8];
+  unsigned char buf[XCSQTR], cbuf[10242], clist[XCNT+2], stc[XCNT*2];
+  short numcrs, numlps, poslnk, neglnk, lowx, restrt, gapsto[65];
+  short tt[XCNT+2], bstlst[XCNT], bilbuf[XCNTSQ], *bilion[XCNT], suplng;
+
+} lmpoly_state_t;
+
+/* Prototypes for later functions */
+
+void mypause(int sig);
+int  ntc(long i,char *buf,lmpoly_state_t *state);
+int  conchk(lmpoly_state_t *state);
+void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state);
+void squish(short sqush,lmpoly_state_t *state);
+void sqush2(short n,short g, lmpoly_state_t *state);
+void triple(short m,short i,unsigned char *p,lmpoly_state_t *state);
+void untwst(short l,short n,short i,short ex,lmpoly_state_t *state);
+void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state);
+int  tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state);
+void delpow(lmpoly_state_t *state);
+void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state);
+int  bust(short tobust,short xpow,short ypow,lmpoly_state_t *state);
+int  skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state);
+
+int strread(char *str,void *buffer,size_t size,lmpoly_state_t *state)
+
+/* Reads up to size characters from string, copying the results to buffer. */
+/* We keep a (global) count of our position in the string internally.      */
+/* Return the number of characters read, or 0 at the end of the string.    */
+/* We don't copy the terminating NULL from str. */
+
+{
+  int ctried,cread;
+
+  for(ctried=0,cread=0;ctried < size;ctried++) {
+
+    if (str[(state->readpos)] != 0) {
+
+      ((char *) buffer)[cread++] = str[(state->readpos)++];
+
+    }
+
+  }
+
+  return cread;
+}
+
+int strwrite(char *str,char *buffer,size_t size,lmpoly_state_t *state)
+
+/*   Writes size characters from buffer to str. Returns the number of  */
+/*   characters written. We keep a static counter of where we are in   */
+/*   the string. */
+
+{
+  int ctried,cwrote;
+
+  for(ctried=0,cwrote=0;ctried < size;ctried++) {
+
+    str[(state->writepos)++] = buffer[cwrote++];
+
+    if ((state->writepos) > MAXPOLY-1) {
+
+      printf("lmpoly: Output polynomial larger than %d characters.\n",
+	     MAXPOLY);
+
+      exit(1);
+
+    }
+
+  }
+
+  return cwrote;
+}
+
+
+char *plc_lmpoly(char *code, int timeout)
+/* This version takes a timeout in seconds. Returns NULL pointer if the computation takes too long. */
+{
+ register short i, j, k, h, m, n, *sp;
+ register unsigned char *p, *c;
+ int in = 0, out, stats, len, len2, pause();
+ long lngi, *lp1, *lp2, kstrt, cmpval;
+ short g, xpow, ypow, dspair[4], maxcrs, chksiz, nopro, skflag;
+ unsigned char nbuf[82], *q, *s;
+ //struct tms hi;
+ char *outpoly;
+
+ clock_t start,end;
+ double  cpu_time_used;
+
+ lmpoly_state_t *state = calloc(1,sizeof(lmpoly_state_t));
+ assert(state != NULL);
+
+ start = clock();
+
+ if (code == NULL) { free(state); return NULL; }
+
+ /* It's possible that we'll be fed a code with only one crossing */
+ /* This will crash the rest of the code, so we insert some stuff here */
+ /* to catch this case and return [[0]]N for the unknot. --JHC */
+
+ int newlinecount = 0;
+ char *codeptr;
+ for(codeptr = code;codeptr != NULL;) {
+
+   codeptr = strchr(codeptr,'\n');
+   if (codeptr != NULL) {
+     newlinecount++;
+     codeptr++;
+   }
+
+} /* Count newlines */
+
+ if (newlinecount == 2 || newlinecount == 3) { /* No crossings, or exactly one */
+
+   outpoly = calloc(128,sizeof(char));
+   sprintf(outpoly,"[[1]]N ");
+   free(state);
+   return outpoly;
+
+ }
+
+/* Now back to your regularly scheduled programming. */
+
+ outpoly = calloc(MAXPOLY,sizeof(char)); // Space for a large polynomial
+ (state->readpos) = 0;  // Reset the globals
+ (state->writepos) = 0;
+
+ maxcrs=XCNT;    /* maximum crossings in a knot, including all limits */
+ chksiz= 50;     /* knot size trigger where (state->bilion) is checked, stats printed */
+ *(state->sign)= 255;      /* do 3 tests on the machine to verify trick operation */
+ i= (short) *(state->sign);
+ if (i< (lngi=0)){
+  write (1,"unsigned char problem - can't calculate knot >127 crossings\n",60);
+  if (maxcrs>127) maxcrs=127;
+ }
+ kstrt= 0x01020304;
+ p= (unsigned char *) &kstrt;
+ c= (unsigned char *) &lngi;
+ *(c++)= *(p++);
+ *(c++)= *(p++);
+ *(c++)= *(p++);
+ *c= *p;
+ if (lngi!= 0x01020304){
+  write (1,"long int pointer copy problem -- halt/restart won't work\n",57);
+ }
+ *nbuf= nbuf[1]= nbuf[2]= nbuf[3]= 0;
+ (state->t)[0]=1;
+ (state->t)[1]=2;
+ (state->t)[2]=3;
+ (state->t)[3]=4;
+ lp1= (long *) (state->t);
+ lp2= (long *) nbuf;
+ *lp2= *lp1;
+ if (*nbuf!=1 || nbuf[1]!=2 || nbuf[2]!=3 || nbuf[3]!=4){
+  write (1,"4 byte copy problem -- use PORTABLE PROGRAM version!\n",53);
+  exit (1);
+ }
+ if (sizeof(lngi)== ((state->suplng)=2)){
+  write(1,"halt/restart won't work, and watch for coefficient overflows\n",61);
+  cmpval= 10000;
+  chksiz= 20;
+ }
+ else cmpval= 1000000000;     /* how big a value fits in a poly memory slot? */
+ if (sizeof(lngi)== 8) (state->suplng)= 1;
+
+ // if (argc<2){
+ // write (1,"usage:  lmpoly -rs knotfile [knotfile ...]\n",43);
+ // exit (1);
+ //}
+
+ /* if ((out=open("lmknot.out",1))== -1){ */
+/*   if ((out=creat("lmknot.out",0644))== -1){ */
+/*    write (1,"fatal: cannot create output file 'lmknot.out'\n",46); */
+/*    exit (1); */
+/*   } */
+/*  } */
+/*  else lseek (out,(long) 0,2); */
+/*  close (out); */
+
+ *(state->count)= (state->restrt)= i= j= kstrt= nopro= 0;
+ stats= -1;
+
+ /* This code appears to detect "restarts" and "stats", neither of which
+    we are currently implementing. */
+
+ /* if (*argv[1]=='-'){
+  if (argc==2 && argv[1][1]=='r'){
+   (state->restrt)=1;
+   if (argv[1][2]=='s') stats= 0;
+  }
+  else if (argv[1][1]=='s'){
+   stats= 0;
+   ++argv;
+   --argc;
+  }
+  } */
+
+
+ lp1= state->plybuf;
+ sp= (state->bilbuf);
+ while (j<XCNT){
+  (state->poly)[j]= lp1;
+  (state->bilion)[j]= sp;
+  lp1+= 1+ 2* (XCNT- ++j);
+  sp+= 1+ 2* (XCNT-j);
+ }
+NEWFIL:
+
+ /* We comment out some "stats" code, since we won't display stats anyway. */
+
+ /* if (stats>0){     // remove stats info for previous knot file
+  i= strlen(*argv);
+  c= (unsigned char *) *argv+i-1;
+  if (i>11) i=11;
+  while (i--!=0 && *c!='/') --c;
+  p=t;
+  while (*++c!=0) *(p++)= *c;
+  *(p++)= '.';
+  *(p++)= 'l';
+  *p=0;
+  close (stats);
+  unlink(t);
+  } */
+ /* if (--argc==0) exit(0); */ /* This was the exit point for the program */
+
+ /* We also comment out some "restart" code since we aren't restarting */
+
+ /*if ((state->restrt)!=0){           // if I am restarting an old calculation
+  if ((in=open("lmpoly.(state->restrt)",0))== -1){
+   write (1,"couldn't find restart file\n",27);
+   exit (0);
+  }
+  read (in,nbuf,82);
+  read (in,(state->cbuf),12);
+  *argv= (char *) (state->cbuf);
+  read (in,(state->buf),7);
+  (state->numcrs)= *(state->buf);
+  xpow= (short) (state->buf)[2];
+  ypow= (short) (state->buf)[1];
+  (state->numlps)= (short) (state->buf)[3];
+  (state->poslnk)= (short) (state->buf)[4];
+  (state->neglnk)= (short) (state->buf)[5];
+  if (((state->buf)[6]&1) !=0) ypow= -ypow;
+  if (((state->buf)[6]&2) !=0) xpow|= 512;
+  read (in,*(state->crsbuf),(state->numcrs)*8);
+  i= 0;
+  while (i!=(state->numcrs)){
+   (state->sign)[i]= (state->crsbuf)[i][1]>>4;
+   (state->crsbuf)[i++][1]&=6;
+  }
+  p= (unsigned char *) &(state->lowx);
+  read (in,p,2);
+  p= (unsigned char *) &kstrt;
+  read (in,p,4);
+  p= (unsigned char *) &notbeg;
+  read (in,p,4);
+  read (in,(state->buf), (int) notbeg);
+  read (in,(char *) count,XCNT*4);
+  read (in,(char *) state->plybuf,4*XCNT*XCNT);
+  read (in,(char *) (state->bilbuf),2*XCNT*XCNT);
+  close (in);
+  in=0;
+  s= (state->cbuf)+14;
+  *s= EOFCHR;
+ }
+ else if ((in=open(*++argv,0))==-1){
+  write (1,"cannot open ",12);
+  write (1,*argv,strlen(*argv));
+  write (1,", skipping\n",11);
+  goto NEWFIL;
+ }
+ if (stats>=0){
+  i= strlen(*argv);
+  q= (unsigned char *) *argv+i-1;
+  if (i>11) i=11;
+  while (i--!=0 && *p!='/') --q;
+  p=t;
+  while (*++q!=0) *(p++)= *q;
+  *(p++)= '.';
+  *(p++)= 'l';
+  *p=0;
+  if ((stats=creat(t,0644)) <0) stats=0;
+ }
+ if ((state->restrt)!=0){
+  if (stats>0){
+   write (stats,nbuf,strlen(nbuf));
+   write (stats,"\n",1);
+  }
+  (state->restrt)=0;
+  goto STEP1; // restart file has set up all NEWNOT data already
+ }
+ */
+
+ c = (state->cbuf);
+
+ /* This code fragment copies the input file into a character buffer,
+    appending the EOF character to the end of the string. Instead, we
+    copy our input "code" buffer into the (state->cbuf) array.
+
+    Original code:
+
+    c[read(in,c,10240)]= EOFCHR;
+
+ */
+
+ int   mypos;
+ for(mypos = 0;code[mypos] != 0 && mypos < 10240-1;mypos++) {
+   c[mypos] = code[mypos];
+ }
+ c[mypos]= EOFCHR;
+
+ while (*c=='\n') ++c;
+
+ s=c;
+NEWNOT:
+ i= XCNT-1;
+ while (i!=0 && (state->count)[i]==0) --i;
+ if (*(state->count)!= ((state->numcrs)=0)){
+  if (stats>=0){
+   if ((out=open("lmknot.stats",1))== -1) out=creat("lmknot.stats",0644);
+   else lseek (out,(long) 0,2);
+  }
+/*   if (stats>=0 && out>0){ */
+/*    write (out,nbuf,strlen(nbuf)); */
+/*    write (out,"\n",1);     /\* write out statistics for knot just completed *\/ */
+/*    lngi=0; */
+/*    while (i!=0){ */
+/*     write (out,t,ntc((long)(i+1),t,state)); */
+/*     write (out,"     ",5); */
+/*     write (out,t,ntc(count[i],t)+1,state); */
+/*     lngi+= count[i--]; */
+/*    } */
+/*    write (out,"\ntotal: ",8); */
+/*    write (out,t,ntc(lngi,t,state)+1); */
+/*    write (out,"run: ",5); */
+/*    times(&hi); */
+/*    lngi= ((hi.tms_utime-kstrt)*5)/3; */
+/*    write (out,t,ntc(lngi/100,t,state)); */
+/*    write (out,".",1); */
+/*    len= ntc(lngi%100,t,state); */
+/*    write (out,"0",2-len); */
+/*    write (out,t,len); */
+/*    write (out," s\n\n",4); */
+/*    kstrt= hi.tms_utime; */
+/*    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40); */
+/*    close (out); */
+/*   } */
+  k= XCNT;
+  i=0;
+  while (k!=0 && i==0){
+   i= 2+ 2*(XCNT-k);
+   lp1= (state->poly)[--k];
+   sp= (state->bilion)[k];
+   while (--i!=0 && *lp1==0 && *(sp++)==0) ++lp1;
+  }
+  if (i!=0){
+
+    /* Original code:
+
+       if ((out= open("lmknot.out",1))<0) out=open("temp.out",1);
+
+       lseek (out,(long) 0,2);
+       write (out,nbuf,strlen(nbuf));
+       write (out,"\n",1); */
+
+    /* write out polynomial for knot just completed */
+
+    /* These lines would copy the first line of the crossing code into
+       the output. We don't need this, so we forget it */
+
+    /*strwrite(outpoly,(char *)(nbuf),strlen((char *)(nbuf)));
+      strwrite(outpoly," ",1); */
+
+    /*
+    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40);
+    if (count[1]!=0) write (out,"coefficient overflow error: output BAD\n",39);
+    */
+
+    if ((state->count)[2]<0) {
+
+      printf("lmpoly: knot became inconsistent.\n");
+      exit(1);
+
+    }
+
+    if ((state->count)[1]!=0) {
+
+      printf("lmpoly: coefficient overflow error.\n");
+      exit(1);
+
+    }
+
+    len=m= -1;
+    while (m++<k || (state->lowx) <= 0){
+        if ((state->lowx)== (i=0)) strwrite (outpoly,"[",1,state);
+        n= XCNT-m-1;
+        j= n*2;
+        while (j!=n && (state->poly)[m][j]==0 && (state->bilion)[m][j]==0) --j;
+        while (i!=n && (state->poly)[m][i]==0 && (state->bilion)[m][i]==0) ++i;
+        if (len==0 || (state->lowx)>=0 || i!=j || (state->poly)[m][i]!=0 || (state->bilion)[m][i]!=0){
+            while (i<=j){
+                if (i==n) strwrite (outpoly,"[",1,state);
+                h=0;
+                lngi= (state->poly)[m][i];
+                if (lngi>=cmpval || lngi<= -cmpval){
+                    h= lngi/cmpval;
+                    lngi-= h* cmpval;
+                }
+                h+= (state->bilion)[m][i];
+                if (h*lngi <0){   /* (state->bilion) and poly are different signs */
+                    if (h<0){
+                        lngi-= cmpval;
+                        ++h;
+                    }
+                    else {
+                        lngi+= cmpval;
+                        --h;
+                    }
+                }
+                if (h!=0){
+                    if (lngi<0) lngi= -lngi;
+                    strwrite (outpoly,(char *)(state->t),ntc((long) h,(char *)(state->t),state),state);
+                    len= ntc(lngi,(char *)(state->t),state);
+                    if (cmpval==10000) len2= 4-len;
+                    else len2= 9-len;
+                    strwrite (outpoly,"00000000",len2,state);
+                    strwrite (outpoly,(char *)(state->t),len,state);
+                }
+                else strwrite (outpoly,(char *)(state->t),ntc(lngi,(char *)(state->t),state),state);
+                if (i++ ==n) strwrite (outpoly,"]",1,state);
+                if (i<=j) strwrite (outpoly," ",1,state);
+            }
+            if ((state->lowx)== (len=0)) strwrite (outpoly,"]",1,state);
+            strwrite (outpoly,"N",1,state);
+        }
+        ++(state->lowx);
+    }
+  }
+  strwrite (outpoly," ",1,state);
+  /* close(out); */ /* We are done writing the polynomial, so return */
+  free(state);
+  return outpoly;
+ }
+ i= XCNT;
+ while (i!=0) (state->count)[--i]=0; /* Erase the (state->count) buffer */
+ c=s;
+ *nbuf=0;                   /* Erase the nbuf string? */
+ if (*c!='1' || (*(c+1)!='+' && *(c+1)!='-')){
+  /* Copy first line of 's' into nbuf */
+  p= nbuf;
+  while (*c!='\n' && *c!= EOFCHR) *(p++)= *(c++);
+  *p= 0;
+  /* if (*c != EOFCHR && stats>0){ */
+/*    lseek (stats,(long) 0,0); */
+/*    write (stats,nbuf,strlen(nbuf)); */
+/*    write (stats,"\n",1); */
+/*   } */
+ }
+ if (*c=='\n') ++c;
+ p= *(state->crsbuf);
+ while (*c!='\n' && *c!=EOFCHR){
+  if ((state->numcrs)==maxcrs){
+    //write (1,"too many crossings in knot\n",27);
+    printf("lmpoly: too many crossings in knot\n");
+    free(outpoly);
+    free(state);
+    return NULL;
+  }
+  while (*c>='0' && *c<='9') ++c;
+  if (*c=='+') (state->sign)[(state->numcrs)]=6;      /* (state->sign)[] says what crossings are + or - */
+  else if (*c=='-') (state->sign)[(state->numcrs)]=2;
+  else if (*c==EOFCHR) --c;
+  else {
+    //write (1,"the format of this knot is unreadable, skipping file\n",53);
+    //close (in);
+    //goto NEWFIL;
+    printf("lmpoly: Could not parse input string.\n");
+    free(outpoly);
+    free(state);
+    return NULL;
+  }
+  ++c;
+  j=4;
+  while (j--!= (i=0) && *c!=EOFCHR){
+   while (*c>='0' && *c<='9'){
+    i*=10;
+    i+= *(c++)-0x30;
+   }
+   if (i==0){
+     //write (1,"the format of this knot is unreadable, skipping file\n",53);
+     //close (in);
+     //goto NEWFIL;
+     printf("lmpoly: Could not parse input string.\n");
+     free(outpoly);
+     free(state);
+     return NULL;
+   }
+   *(p++)= i-1;
+   if (*c!=EOFCHR){
+    if (*c<'a' || *c>'d'){
+      //write (1,"the format of this knot is unreadable, skipping file\n",53);
+      //close (in);
+      //goto NEWFIL;
+      printf("lmpoly: Could not parse input string.\n");
+      free(outpoly);
+      free(state);
+      return NULL;
+    }
+    *(p++)= (*(c++)-'a')*2;
+   }
+  }
+  ++(state->numcrs);
+  if (*c=='\n') ++c;
+ }
+ if (*c==EOFCHR){
+  c=(state->cbuf);
+  len=10240;
+  while (*s!=EOFCHR){
+   *(c++)= *(s++);
+   --len;
+  }
+  if (in!=0 && (i=read(in,c,len))!=0){
+   c[i]=EOFCHR;
+   c=(state->cbuf);
+   while (*c=='\n') ++c;
+   s=c;
+   goto NEWNOT;
+  }
+  *c= EOFCHR;
+  if (in!=0){
+   close (in);
+   in=0;
+  }
+  else goto NEWFIL;
+  if ((state->numcrs)<2) goto NEWFIL;
+ }
+ while (*c=='\n') ++c;
+ s=c;
+ lp1= *(state->poly);
+ sp= *(state->bilion);
+ lngi= XCNT*XCNT;
+ while (--lngi!=0) *(lp1++)= *(sp++)= 0;
+ (state->notbeg)=(state->numlps)=(state->poslnk)=(state->neglnk)= xpow= ypow= 0;
+ if (conchk(state)!=0) exit(0);
+ *(state->count)=1;
+STEP1:
+ skflag=0;
+RESTRT:
+ if ((state->restrt)!=0){
+   /* We don't include the restart functionality for now. */
+
+  /* if ((out=creat("lmpoly.restrt",0644))!= -1){ */
+/*    write (out,nbuf,82); */
+/*    i= strlen(*argv)-11; */
+/*    if (i<0) i=0; */
+/*    write (out,*argv+i,12); */
+/*    *(state->cbuf)= (state->numcrs); */
+/*    if (ypow<0){ */
+/*     ypow= -ypow; */
+/*     (state->cbuf)[6]=1; */
+/*    } */
+/*    else (state->cbuf)[6]=0; */
+/*    if ((xpow&512) !=0) (state->cbuf)[6]|= 2; */
+/*    (state->cbuf)[1]= ypow; */
+/*    (state->cbuf)[2]= xpow; */
+/*    (state->cbuf)[3]= (state->numlps); */
+/*    (state->cbuf)[4]= (state->poslnk); */
+/*    (state->cbuf)[5]= (state->neglnk); */
+/*    write (out,(state->cbuf),7); */
+/*    i= -1; */
+/*    while (++i!=(state->numcrs)) (state->crsbuf)[i][1]|= (state->sign)[i]<<4; */
+/*    write (out,*(state->crsbuf),(state->numcrs)*8); */
+/*    p= (un(state->sign)ed char *) &(state->lowx); */
+/*    write (out,p,2); */
+/*    times(&hi); */
+/*    kstrt-= hi.tms_utime; */
+/*    p= (un(state->sign)ed char *) &kstrt; */
+/*    write (out,p,4); */
+/*    p= (unsigned char *) &notbeg; */
+/*    write (out,p,4); */
+/*    write (out,buf, (int) notbeg); */
+/*    write (out,(char *) count,XCNT*4); */
+/*    write (out,(char *) state->plybufn,4*XCNT*XCNT); */
+/*    write (out,(char *) (state->bilbuf),2*XCNT*XCNT); */
+/*    close (out); */
+/*    close (stats); */
+/*    exit(0); */
+/*   } */
+   /*write (1,"couldn't create restart file 'lmpoly.restrt'\n",45);*/
+
+   printf("lmpoly: Warning! This version does not save"
+	  " restart info on quit.\n"
+	  "        Terminating run now.\n\n");
+   exit(0);
+   /*restrt=0; */
+ }
+/* FIRST -- remove figure 8 loops, 2 cases  "#-#d#c#b#a"  "#+#b#a#d#c" */
+/* SECOND -- remove monogons (must recheck previous crossings) */
+/* 4 cases  "#+#b#a????"  "#+????#d#c"  "#-#d????#a"  "#-??#c#b??" */
+/* THIRD -- remove bigons -- make sure loops don't get forgotten. */
+/* 2 cases "k?mcmb???? m???kbka??"  "k?mc????md  m?????kakd" */
+/* bigon yanker MUST be completely thorough or loops can get lost later */
+ *dspair=g= i= (state->numcrs);
+ c=p= (state->crsbuf)[i];
+ k=2;
+ while (i--!=0){  /* loop through all crossings */
+  p-=8;
+  if (*p==i){
+   if (p[4]==i) ++(state->numlps);
+   else mrecon (p+4,p+(state->sign)[i],state);
+   squish (i,state);
+   goto STEP1;
+  }
+  else if (p[4]==i){
+    mrecon (p,p+((state->sign)[i]^4),state);
+    squish (i,state);
+   goto STEP1;
+  }
+   /* this bigon test checks that ka points to some mc, */
+    /* and kd to md, or kb to mb */
+  if (p[1]==4 && ((*p==p[6] && p[7]==6) || (*p==p[2] && p[3]==2))){
+   if ((j= *p) ==p[2]) k=6;
+   c= (state->crsbuf)[j];
+   if (p[4]==j) ++(state->numlps);
+   if (p[2]==p[6]) ++(state->numlps);
+   mrecon (p+4,c,state);
+   mrecon (p+k,c+k,state);
+   sqush2 (i,j,state);
+   goto STEP1;
+  }
+  (state->bstlst)[i]= 0;
+ }
+ if ((state->numcrs)<6) g=0;
+/* find very good and ok triples */
+ while (g--!= (lngi=0)){
+  c-=8;
+  p= (state->crsbuf)[*c]+ ((c[1]^2)&2);
+  q= (state->crsbuf)[c[4]]+ ((c[5]^2)&2);
+  if ((i= c[2]) != (j= c[6]) && *c!=c[4]){
+   if ((m= *q) == (n= q[4])) m=n= -1;
+   if ((h= *p) == (k= p[4])) h=k= -1;
+   if ((h==i && k==j) || (j==h && k==i)) lngi=1;
+   if ((m==i && n==j) || (m==j && n==i)) lngi|=2;
+   if ((n==j || m==j) && (k==j || h==j)) lngi|=4;
+   if ((m==i || n==i) && (h==i || k==i)) lngi|=8;
+  }
+  else {
+   h=0;       /* there is a ring through this crossing */
+   if (i!=j){
+    i= *c;   /* on over branch */
+    h=2;
+   }
+   else if (*c==c[4]){
+    ++(state->numlps); /* knot's a distant union with a 2-link */
+    if ((state->sign)[g]==2) ++(state->neglnk);
+    else ++(state->poslnk);
+    sqush2 (g,i,state);
+    goto STEP1;
+   }
+   j=h;
+   c+=h;
+   if ((state->sign)[g]!=(state->sign)[i]) ++(state->numlps); /* loose ring */
+   else {
+    if ((state->sign)[g]==2) ++(state->neglnk);
+    else ++(state->poslnk);
+    j= h^2;
+   }
+   p= (state->crsbuf)[i]+j;  /* only do one mrecon unless I HAVE to do 2 */
+   q= c+4;
+   if (*c==i){
+    if ((c[1]&4) ==0) c= p+4;
+    else c=p;
+   }
+   else if (*q==i){
+    if ((q[1]&4) ==0) q= p+4;
+    else q=p;
+   }
+   else mrecon (p,p+4,state);
+   mrecon (c,q,state);
+   sqush2 (g,i,state);
+   goto STEP1;
+  }
+  if (lngi!=0){
+   k= lngi;
+   *dspair=1;
+   if ((k&3)!=0){
+    if ((c[3]&c[7]&2)!=0){
+      triple((short) ((k&2)<<1),g,c,state);
+     goto STEP1;
+    }
+    if (((c[3]^c[7])&2)!=0){
+     if ((c[((k&2)<<1)|1]&2)==0){
+      if ((state->sign)[c[(k&2)<<1]]!=(state->sign)[g]) (state->bstlst)[i]= (state->bstlst)[j]= -19;
+      else (state->bstlst)[i]= (state->bstlst)[j]= 8;
+     }
+     else {
+      n=8;
+      if ((state->sign)[c[(k&2)<<1]]==(state->sign)[g]) n= -8;
+      sp= (state->bstlst)+i;
+      if ((c[3]&2)!=0) sp= (state->bstlst)+j;
+      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
+     }
+    }
+    else {
+     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
+     else (state->bstlst)[g]-= 8;
+    }
+   }
+   if (k>3){
+    if (((c[1]|c[5])&2)==0){
+      triple((short) ((k&4)|2),g,c,state);
+     goto STEP1;
+    }
+    if (((c[1]^c[5])&2)!=0){
+     if ((c[(k&4)|3]&2)!=0){
+      if ((state->sign)[c[(k&4)|2]]!=(state->sign)[g]) (state->bstlst)[*c]= (state->bstlst)[c[4]]= -19;
+      else (state->bstlst)[*c]= (state->bstlst)[c[4]]= 8;
+     }
+     else {
+      n=8;
+      if ((state->sign)[c[(k&4)|2]]==(state->sign)[g]) n= -8;
+      sp= (state->bstlst) + c[4];
+      if ((c[1]&2)!=0) sp= (state->bstlst)+ *c;
+      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
+     }
+    }
+    else {
+     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
+     else (state->bstlst)[g]-= 8;
+    }
+   }
+  }
+ }
+ /* circuit remover */
+ j= (state->numcrs)-1;
+ if (j<3) j= -1;
+ else if (j<11){    /* <12 will blow up */
+  p= *(state->crsbuf)+1;
+  i=(state->numcrs);
+  while (i--!=0 && *p!=4) p+=8; /* only non-alternating (a to c) knots */
+  if (i< (n=0)) j= -1;
+  else p= (state->crsbuf)[j]+5;   /* remove twists */
+  while (j>=0){
+   n^=4;
+   k= *(p--)^4;
+   if ((k&2) == 0){
+    c= (state->crsbuf)[*p]+k;
+    i= *c;
+    k= c[1]^4;
+    if ((k&2) != 0 && (state->crsbuf)[i][k]==j){
+      untwst ((short) *p,i,j,n,state);
+      squish (j,state);
+     goto STEP1;
+    }
+   }
+   if (n==0) --j;
+   p-=3;
+  }
+ }
+ g= (state->donlnk)[XCNT]= m= 0;
+ while ((n=j) >= (*(state->tt)=(state->tt)[2]=h= 0)){
+  k=g;
+  do {
+   p= (state->crsbuf)[j]+k;
+   j= *p;
+   k= p[1]^4;
+   i= h;
+   p=(state->clist);
+   while (i--!=0 && *(p++) != j);
+   if (i>=0){
+    j= n;              /* circuit crosses itself */
+    goto NXTCIR; /* skip circuit, wait for a sub-piece that doesn't */
+   }
+   else {
+    ++(state->tt)[k&2];
+    *p= j;
+    (state->t)[h++]= (k&2)^2;
+   }
+  } while (n!=j);
+  if (k != g) --(state->tt)[k&2];
+  else k= -1;
+  if (*(state->tt)==0 || (state->tt)[2]==0){
+    rmcir(h,j,k,state->t,0,state);
+   goto STEP1;
+  }
+  if (tstcir(h,(state->bstlst),dspair,&skflag,state) !=0) goto RESTRT;
+  if (h==3){
+   (state->stc)[m++]=j; /* store vertex of 3 crossing circuit for (state->bstlst) later */
+   (state->stc)[m++]=g;
+   (state->stc)[m++]=k^4;
+  }
+NXTCIR:
+  if (g==0) g= (state->sign)[j];
+  else {
+   --j;
+   g=0;
+  }
+ }
+/* if knot is tiny, store polynomial coefficients and restart a stored knot */
+ if ((state->numcrs)<6){
+  lngi= 1;
+  if ((state->numcrs)==0) --(state->numlps);
+  delpow(state);
+  if ((xpow&512)!=0){
+   lngi= -1;
+   xpow&=511;
+  }
+  if ((state->numcrs)==4){
+   c= *(state->crsbuf);
+   p= c+4;
+   if (*p==*c || c[2]==p[2]){
+    g= -3;
+    if (*p==p[2] && *c==c[2]) g= -4;
+   }
+   else {
+    g= 0;  /* 0 is flag for knot */
+    i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
+    if (i!=16) g=2;     /* flag for 2 links   */
+   }
+  }
+  else if ((state->numcrs)==5){
+   n=10;
+   i=j= 0; /* step through knot, if don't get to end, it's a link */
+   do {
+    p= (state->crsbuf)[i]+j;
+    i= *p;
+    j= p[1]^4;
+    --n;
+   } while (i!=0 || j!=0);
+   if (n>0){
+    i=h= 0; /* 5 crossing 2 link  or twisted 3 link  or tref and 2 links */
+    g=m= 1;      /* or tref + link */
+    k= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
+    if (k>10 && k<30){
+     if (k>20){
+      while ((state->sign)[i]==6) ++i;
+     }
+     else {
+      while ((state->sign)[i]==2) ++i;
+     }
+     if (k==14 || k==26) goto FOURX;
+     c= (state->crsbuf)[i];
+     p= c+4;
+     if (*p==*c || p[2]==c[2]){
+      if (*p==p[2] && *c==c[2]) g=3;
+      else {
+       h=4;
+       if ((state->sign)[i]==6) m= -1;
+      }
+     }
+     else {
+      g=2;
+      j=0;
+      if ((state->sign)[*c]!=(state->sign)[i]) j=4;
+      k= c[j];
+      if ((state->crsbuf)[k][j]!=i){
+       if ((state->sign)[i]==6) m= -1;
+      }
+      else if ((state->sign)[i]==2) m= -1;
+     }
+    }
+    if (g==1){
+     if (h==0 && (state->sign)[i]==2) m= -1;
+     i=j=k= 5;
+     c= state->t;
+     while (j!=0) c[--j]=0;
+     while (k--!=0){
+      j= (state->sign)[k]; /* trefs + circles have fake bigons at all crossings */
+      p= (state->crsbuf)[k]; /* so find all fake bigons */
+      if (p[1]==(j^4) && (*p==p[2] || *p==p[6])) c[k]=c[*p]= 1;
+      if (p[5]==j && p[4]==p[j]) c[k]=c[p[4]]= 1;
+     }
+     while (--i>=0 && c[i]!=0);
+     if (i>=0){
+FOURX: /* found twisted 3 link -- "squish" twist before making polynomial */
+      while (++i!=6) (state->sign)[i-1]= (state->sign)[i];
+      (state->numcrs)=4;
+      g= -3;  /* flag for 4 crossing 3 links */
+     }
+     else {
+      p= *(state->crsbuf);
+      if (n==4 || (n==8 && *p==p[4] && p[2]==p[6])) g=3;
+     }
+    }
+   }
+   else g= -1; /* it's a knot! */
+  }
+  i= (*(state->sign))/2 -2;
+  k= xpow;
+  n=ypow;
+  p= *(state->crsbuf);
+  if ((state->numcrs)==5){
+   if (g<0){ /* knots */
+    if (i>0){
+     if (*p==p[6] && p[2]==p[4] && p[10]==p[12]) g= -2;
+    }
+    else if (*p==p[2] && p[4]==p[6] && p[8]==p[10]) g= -2;
+    if (g== -1){ /* knot five-two */
+      addin(lngi,(short)(n-i*6),k,0,0,state);      /* the flags at the end of addin  */
+      addin(lngi,(short)(n-i*4),k,-1,2,state);     /* let you do two addins at once, */
+      addin((long)-lngi,(short)(n-i*2),k,-1,2,state);    /* for addins with equal ypows.   */
+    }
+    else { /* knot five-one */
+     k+=2;
+     addin((long)(-4*lngi),(short)(n-i*4),k,0,0,state);
+     addin((long)-lngi,(short)(n-i*6),k,-2,-2,state);
+     addin(lngi,(short)(n-i*4),(short)(k+2),3,-4,state);
+    }
+   }
+   else { /* links */
+    if (g==1){ /* trefoil + circle */
+     if (h!=0){
+       addin(lngi,(short)(n-m*3),++k,-1,-2,state);
+       addin((long)(3*lngi),(short)(n-m),k,-1,-2,state);
+       addin(lngi,(short)(n+m),k,-2,-2,state);
+       addin((long)-lngi,(short)(n-m),(short)(k+2),0,0,state);
+     }
+     else {
+       addin((long)-lngi,(short)(n-m*7),--k,0,0,state);
+       addin((long)(-3*lngi),(short)(n-m*5),k,0,0,state);
+      k+=2;
+      addin((long)(3*lngi),(short)(n-m*3),k,0,0,state);
+      addin((long)(2*lngi),(short)(n-m*5),k,0,0,state);
+      addin((long)-lngi,(short)(n-m*3),(short)(k+2),2,-4,state);
+     }
+    }
+    else if (g==2){ /* 2 component link five-one */
+      addin((long)-lngi,(short)(n+m),--k,-2,2,state);
+      addin((long)-lngi,(short)(n-m),k,-1,2,state);
+      addin(lngi,(short)(n+m*3),(short)(k+2),0,0,state);
+      addin((long)-lngi,(short)(n+m),(short)(k+4),0,0,state);
+    }
+    else { /* trefoil and circle + circle */
+     i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
+     m=1;
+     if (i<20){
+      m= -1;
+      i= 40-i;
+     }
+     j= k-2;
+     if (i!=30){
+       addin(lngi,(short)(n-m*4),j,-1,2,state);
+       addin((long)(4*lngi),(short)(n-m*2),j,-1,2,state);
+       addin((long)(5*lngi),n,j,0,0,state);
+       addin((long)-lngi,(short)(n+m*2),k,-2,-2,state);
+      k+=2;
+      addin(lngi,n,k,-4,-2,state);
+      addin(lngi,(short)(n-m*2),k,0,0,state);
+     }
+     else {
+       addin(lngi,(short)(n-m*8),j,0,0,state);
+       addin((long)(5*lngi),(short)(n-m*4),j,0,0,state);
+       addin((long)(2*lngi),(short)(n-m*2),j,0,0,state);
+       addin((long)(-2*lngi),(short)(n-m*6),k,-2,-2,state);
+      k+=2;
+      addin(lngi,(short)(n-m*4),k,-5,-2,state);
+      addin(lngi,(short)(n-m*2),k,-3,-2,state);
+     }
+    }
+   }
+  }
+  else if ((state->numcrs)==4){
+   if (g==0){ /* knot 4-1 */
+     addin((long)-lngi,(short)(n-2),k,0,0,state);
+     addin((long)-lngi,n,k,-1,2,state);
+     addin((long)-lngi,(short)(n+2),k,0,0,state);
+   }
+   else if (g>0){
+    i=1;
+    if (*(state->crsbuf)[*p]==0){
+     if (*(state->sign)==6) i= -1; /* 2 link 4^2-1 */
+     addin((long)-lngi,(short)(n+i*3),--k,-1,2,state);
+     addin((long)-lngi,(short)(n+i*5),k,0,0,state);
+     addin((long)-lngi,(short)(n+i),(short)(k+2),0,0,state);
+    }
+    else {
+     if (*(state->sign)==2) i= -1;
+     addin((long)-lngi,(short)(n-i*5),--k,-1,2,state);
+     addin((long)-lngi,(short)(n-i*3),k,-3,2,state);
+     addin((long)-lngi,(short)(n-i*3),(short)(k+4),0,0,state);
+    }
+   }
+   else if (g== -3){ /* 3 link */
+    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
+    i= 8- j/2;
+    if (i==0){
+      addin((long)-lngi,(short)(n-2),k,-1,-2,state);
+      addin((long)(-2*lngi),n,k,-1,-2,state);
+      addin((long)-lngi,(short)(n+2),k,-1,-2,state);
+      addin(lngi,n,(short)(k+2),0,0,state);
+    }
+    else {
+     j= k-2;
+     addin(lngi,(short)(n-2+i),j,0,0,state);
+     addin((long)(2*lngi),(short)(n+i),j,-1,2,state);
+     addin(lngi,(short)(n+2+i),j,0,0,state);
+     addin(lngi,(short)(n+i/2),(short)(k+2),-2,-2,state);
+    }
+   }
+   else { /* circle + circle  and  circle + circle */
+    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
+    i= 8- j/2;
+    if (i==0){
+      addin(lngi,(short)(n-3),--k,-1,-2,state);
+      addin((long)(3*lngi),(short)(n-1),k,-1,-2,state);
+      addin((long)(3*lngi),(short)(n+1),k,-1,-2,state);
+      addin(lngi,(short)(n+3),k,-1,-2,state);
+     k+=2;
+     addin((long)-lngi,(short)(n-1),k,0,0,state);
+     addin((long)-lngi,(short)(n+1),k,0,0,state);
+    }
+    else {
+     k-=3;
+     addin((long)-lngi,(short)(n-3+i),k,0,0,state);
+     addin((long)(-3*lngi),(short)(n-1+i),k,0,0,state);
+     addin((long)(-3*lngi),(short)(n+1+i),k,0,0,state);
+     addin((long)-lngi,(short)(n+3+i),k,0,0,state);
+     k+=2;
+     addin((long)(2*lngi),(short)(n-2+(i*3)/4),k,0,0,state);
+     addin((long)(4*lngi),(short)(n+(i*3)/4),k,0,0,state);
+     addin((long)(2*lngi),(short)(n+2+(i*3)/4),k,0,0,state);
+     k+=2;
+     addin((long)-lngi,(short)(n-1+i/2),k,0,0,state);
+     addin((long)-lngi,(short)(n+1+i/2),k,0,0,state);
+    }
+   }
+  }
+  else if ((state->numcrs)==3){
+    addin((long)-lngi,(short)(n-i*4),k,0,0,state);
+    addin(lngi,(short)(n-i*2),(short)(k+2),-2,-2,state);
+  }
+  else if ((state->numcrs)!=0){
+    addin(lngi,(short)(n-i),--k,-1,2,state);
+    addin(lngi,(short)(n-i*3),k,0,0,state);
+  }
+  else addin(lngi,n,k,0,0,state);
+  if ((state->notbeg)!=0){
+   (state->numcrs)= (state->buf)[(state->notbeg)-1];
+   (state->numlps)= (state->buf)[(state->notbeg)-4];
+   (state->poslnk)= (state->buf)[(state->notbeg)-5];
+   (state->neglnk)= (state->buf)[(state->notbeg)-6];
+   xpow= (state->buf)[(state->notbeg)-3];
+   ypow= (state->buf)[(state->notbeg)-2];
+   if ((state->buf)[(state->notbeg)-7]!=0) ypow= -ypow;
+   if ((state->buf)[(state->notbeg)-8]!=0) xpow|= 512;
+   (state->notbeg)-= 8+ (state->numcrs)*8;
+   i=0;
+   p= *(state->crsbuf);
+   c= (state->buf)+(state->notbeg);
+   while (i!=(state->numcrs)){
+    j=4;
+    while (j--!=0){
+     *(p++)= *(c++);
+     *(p++)= *(c++)&6;
+    }
+    (state->sign)[i++]= (*(c-7))>>4;
+   }
+   if ((state->numcrs)>chksiz){
+    lp1= *(state->poly);
+    sp= *(state->bilion);
+    lngi= XCNT*XCNT;
+    while (lngi--!=0){
+     if (*lp1> cmpval){
+      if ((*sp)++ == MAXBIL) (state->count)[1]=1;
+      *lp1-= cmpval;
+     }
+     else if (*lp1< -cmpval){
+      if ((*sp)-- == -MAXBIL -1) (state->count)[1]=1;
+      *lp1+= cmpval;
+     }
+     ++lp1;
+     ++sp;
+    }
+    /* if (stats>0){ */
+/*      lseek (stats,(long)(strlen(nbuf)+1),0); */
+/*      lngi=0; */
+/*      i= XCNT-1; */
+/*      while (count[i]==0) --i; */
+/*      while (i!=0){ */
+/*       write (stats,t,ntc((long)(i+1),t),state); */
+/*       write (stats,"     ",5); */
+/*       write (stats,t,ntc(count[i],t)+1,state); */
+/*       lngi+= count[i--]; */
+/*      } */
+/*      write (stats,"\ntotal: ",8); */
+/*      write (stats,t,ntc(lngi,t,state)+1); */
+/*      write (stats,"\nbiggest stacked knots:\n",24); */
+/*      i=12; */
+/*      sp= (state->bstlst); */
+/*      while (i--!=0) sp[i]=0; */
+/*      lngi=notbeg-1; */
+/*      while (lngi>0){ */
+/*       k= (state->buf)[lngi]; */
+/*       sp[++i]= k; */
+/*       lngi-= k*8 + 8; */
+/*       if (i==10) i= -1; */
+/*      } */
+/*      k= 0; */
+/*      while (*sp!=0){ */
+/*       j= ntc((long) *(sp++),t,state); */
+/*       k+=j+1; */
+/*       write (stats,t,j); */
+/*       write (stats," ",1); */
+/*      } */
+/*      write (stats,"                                            ",44-k); */
+/*      write (stats,"\n",1); */
+/*     } */
+   }
+  }
+  else (state->numcrs)=0;
+ }
+ else {
+/* locate fake bigons, 0 branch bigons, and 3 cross circuits for (state->bstlst) */
+  k= (state->numcrs);
+  p= (state->crsbuf)[k]; /* only set k, other crossings will be set in their loops   */
+  c= (state->sign)+k;    /* If a tangle is added to the knot with twists, I can find */
+  while (k--!=0){ /* it sometimes and remove the twists! */
+   n= (state->bstlst)[k];
+   p-=8;
+   j= *--c;
+   i= *p;
+   g= p[4];
+   if (g==p[j]){   /* good fake bigon behind me */
+    if (p[5]!=j){
+     c= (state->crsbuf)[g];  /* wrong! twisted tangle ahead! remove twists! */
+     mrecon (p+(j^4),c+ (p[j+1]^4),state);
+     mrecon (p,c+ (p[5]^4),state);
+     sqush2 (k,g,state);
+     goto STEP1;
+    }
+    if (n>0) n= -4-n;
+    else n+= -8;
+   }
+   if (p[j]==(state->crsbuf)[g][(state->sign)[g]^j^4] && (p[5]&2)!=0 && nopro!=(state->numcrs)){
+    if ((p[j+1]&2)!=0){
+     if (n<0) n-=12;
+     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
+    }
+    else { /* 0 branch has fake bigon */
+     g=1;
+     if (p[5]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
+     if (n<0) n-=g;
+     else if (n>0) n+=g;
+    }
+   }
+   j^=4;
+   if (p[j]==i){  /* good fake bigon ahead of me */
+    if (p[1]!=j){
+     q= (state->crsbuf)[i];  /* wrong! twisted tangle behind! remove twists! */
+     mrecon (p+4,q+ (p[1]^4),state);
+     mrecon (p+ *c,q+ (p[j+1]^4),state);
+     sqush2 (k,i,state);
+     goto STEP1;
+    }
+    if (n>0) n= -4-n;
+    else n+= -8;
+   }
+   else if (p[j^4]==i){  /* bad fake bigon ahead */
+    if (n<0) n-= 8;
+    else if (n<8) n= 8;
+    if ((state->bstlst)[i]<0) (state->bstlst)[i]-=8;     /* mutualize */
+    else if ((state->bstlst)[i]<8) (state->bstlst)[i]=8;
+   }
+   if (p[j]==(state->crsbuf)[i][(state->sign)[i]^j^4] && (p[1]&2)!=0 && nopro!=(state->numcrs)){
+    if ((p[j+1]&2)!=0){
+     if (n<0) n-=12;
+     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
+    }
+    else { /* 0 branch has fake bigon (1 point) */
+     g=1;
+     if (p[1]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
+     if (n<0) n-=g;
+     else if (n>0) n+=g;
+    }
+   }
+   (state->bstlst)[k]=n;
+  }
+  c= (state->stc);
+  i= -8;
+  if (nopro==(state->numcrs)) m=0;
+  while (m>0){
+   m-=3;
+   n= *(c++);
+   g= *(c++);
+   p= (state->crsbuf)[n];  /* busting vertex of 3 cross circuit makes a removeable */
+   sp= (state->bstlst)+n;  /* + or - link on the 0 branch -- free 2 reduction */
+   k= p[*(c++)];
+   j= p[g];
+   if ((p[g|1]&2) != 0) p= (state->crsbuf)[j];
+   else p= (state->crsbuf)[j]+(state->sign)[j];
+   if (*p==k) --i;
+   if (*sp<0) *sp+= i-4;
+   else if (*sp==0) *sp= 4-i;
+   else *sp= i- *sp;
+  }
+  i= nopro= (state->numcrs);
+  k=n= 0;
+  sp= (state->bstlst)+(state->numcrs);
+  while (i--!=0){
+   if (*--sp<n){
+    n= *sp;
+    j=i;
+   }
+   else if (*sp>k){
+    k= *sp;
+    m=i;
+   }
+  }
+  if (n==0){
+   if (k==0){
+    j= dspair[2];
+    nopro=0;
+   }
+   else j=m;
+  }
+  else if (n>-14 && k>12) j=m; /* since exponential growth is 1.41^n */
+  ypow += bust(j,xpow,ypow,state);
+  xpow^=512;
+  ++(state->count)[(state->numcrs)-1];
+ }
+ // This point must be reached fairly often, so we're going to put in the timeout code here.
+ end = clock();
+ cpu_time_used = ((double)(end - start))/CLOCKS_PER_SEC;
+ if (timeout > 0 && cpu_time_used > timeout) {
+   free(outpoly);
+   free(state);
+   return NULL;
+ }
+ if ((state->numcrs)!=0) goto STEP1;
+ goto NEWNOT;
+}
+
+void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state)
+/* short top, vnum, vbrnch;
+   unsigned char *ovundr;
+   int flag; */
+{
+ register short i, j, k, h, m, n;
+ register unsigned char *s, *c, *p;
+ register long *lp1, *lp2;
+ short g;
+ if ((m=vbrnch) >=0){
+  i= vnum;
+  s= (state->crsbuf)[i];
+  k= s[m];
+  g= s[m|1];
+  if (m!=0) c= s+4;
+  else c= s+((state->sign)[i]^4);
+  p= (state->crsbuf)[k]+g;
+  h= *p= *c;
+  n= p[1]= c[1];
+  p= (state->crsbuf)[h]+n;
+  *p= k;
+  p[1]= g;
+  s[6]= s[4]= s[2]= *s= i;
+ }
+ else ++(state->numlps);
+ s= (state->clist);
+ j= -1;
+ while (top-1 > (i=k= ++j)){
+  while (++i<top){
+   if (s[i] < s[k]) k=i;
+  }
+  if (k!=j){    /* order crossings in (state->clist) */
+   i= s[j];
+   s[j]= s[k];
+   s[k]=i;
+   m= ovundr[j];
+   ovundr[j]= ovundr[k];
+   ovundr[k]= m;
+  }
+ }
+      /* relink */
+ m= top;
+ while (m--!=0){
+  i= s[m];
+  g= ovundr[m];
+  k= (state->crsbuf)[i][g];
+  j= (state->crsbuf)[i][g|1];
+  h= (state->crsbuf)[k][j]= (state->crsbuf)[i][g|4];
+  n= (state->crsbuf)[k][j|1]= (state->crsbuf)[i][g|5];
+  (state->crsbuf)[h][n]= k;
+  (state->crsbuf)[h][n|1]= j;
+ }
+ if (flag!=0) return;
+      /* squish crossings out of the list */
+ i= *s;
+ lp1= (long *) (state->crsbuf)[i];
+ lp2=lp1+(state->suplng);
+ p= (state->sign)+i;
+ c=p+1;
+ j= 0;
+ k=1;
+ while (++i!=(state->numcrs)){
+  if (s[k]== i){
+   lp2+= (state->suplng);
+   ++c;
+   if (++k==top) k=0;
+  }
+  else {
+   *(lp1++)= *(lp2++);
+   if ((state->suplng)==2) *(lp1++)= *(lp2++);
+   *(p++)= *(c++);
+  }
+ }
+     /* renumber branch pointers (subtract 1 if the crossing was after) */
+ (state->numcrs)-= top;
+ k= (state->numcrs);
+ c= (state->crsbuf)[k];
+ while (k--!=0){
+  j=5;
+  while (--j!=0){
+   c-=2;
+   i=top;
+   s= (state->clist)+i;
+   while (i--!=0){
+    if (*c> *--s) --*c;
+   }
+  }
+ }
+ return;
+}
+
+int ntc(long i,char *buf,lmpoly_state_t *state)
+{
+ long j;
+ int r;
+ char *p;
+ p=buf;
+ r=0;
+ if (i<0){
+  i= -i;
+  r=1;
+  *(p++)= '-';
+ }
+ if (i>999999999) j=1000000000;
+ else if (i>99999999) j=100000000;
+ else if (i>9999999) j=10000000;
+ else if (i>999999) j=1000000;
+ else if (i>99999) j=100000;
+ else if (i>9999) j=10000;
+ else if (i>999) j=1000;
+ else if (i>99) j=100;
+ else if (i>9) j=10;
+ else j=1;
+ while (j!=0){
+  ++r;
+  *(p++)= (i/j)%10+0x30;
+  j/=10;
+ }
+ *p='\n';
+ return (r);
+}
+
+void delpow(lmpoly_state_t *state)
+{
+ register long *lp1, *lp2, *lsp, *osp;
+ register short i, j, k, m, s, mpos;
+ short numlnk, mpow, u, v, x, y, z, order[2], prslen[2], pstlen[2];
+ lp1=(state->b);
+ if ((state->numlps)<4){
+  if ((state->numlps)==1){
+   *(lp1++)= -1;
+   *lp1= -1;
+  }
+  else if ((state->numlps)==3){
+   *(lp1++)= -1;
+   *(lp1++)= -3;
+   *(lp1++)= -3;
+   *lp1= -1;
+  }
+  else {
+   *(lp1++)= 1;
+   *(lp1++)= 2;
+   *lp1= 1;
+  }
+ }
+ else {
+  *lp1= 1;
+  (state->b)[1]= 4;
+  (state->b)[2]= 6;
+  k= (state->b)[3]= 4;
+  (state->b)[4]= 1;
+  while (k++!=(state->numlps)){
+   j=k;
+   (state->b)[j]=1;
+   while (--j!=0) (state->b)[j]+= (state->b)[j-1];
+  }
+  if (((state->numlps)&1)!=0) while (--k>=0) (state->b)[k]= -(state->b)[k];
+ }
+ *prslen= *pstlen= prslen[1]= pstlen[1]= mpos= mpow= 0;
+ osp= (state->b)+ (state->numlps)+1;
+ if ((state->poslnk)>(state->neglnk)){
+  order[1]= (state->poslnk);
+  *order= (state->neglnk);
+ }
+ else {
+  order[1]= (state->neglnk);
+  *order= (state->poslnk);
+  mpos=2;
+ }
+ z=2;
+ while (z--!=0){
+  numlnk=order[z];
+  mpos^=2;
+  while (numlnk--!=0){
+   m= ++mpow;
+   s=j=k= (state->numlps)+1;
+   u= *pstlen;
+   v= pstlen[1];
+   ++prslen[z];
+   *pstlen= x= *prslen;
+   pstlen[1]= y= prslen[1];
+   lp2= osp;
+   lp1= lp2+ j+ m;
+   if (z==0) lp1+= order[1];
+   osp= lp1;
+   while (j--!=0) *--lp1=0;
+   while (m--!=0){
+    i=j= s;
+    lsp= lp1;
+    if (mpos== (z|2) && y>0) *--lsp=0;
+    if (mpos!=0) lp1+=k;
+    else lp1+=i;
+    while (j--!=0) *--lp1-= *--lp2;
+    lp2+=i;
+    lp1= lsp;
+    *--lp1=0;
+    while (i--!=0) *--lp1= *--lp2;
+    lp1= lsp;
+    lsp= lp2;
+    lp2= lp1-1;
+    j=s;
+    while (j--!=0) *--lp1+= *--lp2;
+    --lp1;
+    if (x-->0) ++k;
+    if (y-->0){
+     ++k;
+     if (mpos==z) *--lp1=0;
+    }
+    if (u-->0) ++s;
+    if (v-->0) ++s;
+    lp2=lsp;
+   }
+  }
+ }
+}
+
+void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state)
+/*short ypow, xpow;
+long kcoeff;
+int mult, reach;*/
+{
+  register long *lp1, *lp2 = NULL, addon, *p; // Added init for lp2, JC.
+  register short i, j, k, numlnk, loops;
+  i= (state->poslnk);
+  k= (state->neglnk);
+  numlnk= i+k;
+  loops= (state->numlps)+ numlnk;
+  ypow+= XCNT-xpow-1+(state->lowx)+ 2*(k-i);
+  xpow-=(state->lowx)+loops;
+  p=(state->b);
+  while (numlnk-->=0){
+    if (reach!=0) lp2= (state->poly)[xpow+reach]+ypow-reach;
+    lp1= (state->poly)[xpow]+ ypow;
+    j= loops;
+    while (j-->=0){
+      addon= kcoeff* *(p++);
+      *lp1+= addon;
+      lp1+=2;
+      if (reach!=0){
+	*lp2+= mult*addon;
+	lp2+=2;
+      }
+    }
+    if (--i<0) --loops;
+    if (--k<0) --loops;
+    else ypow-=2;
+    xpow+=2;
+  }
+}
+
+void untwst(short l,short n,short i,short ex,lmpoly_state_t *state)
+/* short l, n, i, ex; */
+{
+ register unsigned char *pl, *pn;
+ register short g, h, m, k, d, e;
+ short j;
+ j= (state->sign)[i]; /* flip 3 crossing circuits */
+ k= j^ex;
+ ex^=4;
+ m= j^ex;
+ if ((state->sign)[l]-ex==2){
+  g= j^2;
+  h= g^4;
+  j= 6;
+ }
+ else {
+  h= j^2;
+  g= h^4;
+  j= 2;
+ }
+ pl= (state->crsbuf)[l];
+ pn= (state->crsbuf)[n];
+ d= pl[m];
+ e= pl[m|1];
+ pl[m]= pn[g];
+ pl[m|1]= pn[g|1];
+ if (d!=n){
+  pn[g]= d;
+  pn[g|1]= e;
+ }
+ else {
+  pn[g]= l;
+  pn[g|1]= k;
+ }
+ (state->crsbuf)[pl[m]][pl[m|1]]= l;
+ (state->crsbuf)[pl[m]][pl[m|1]|1]= m;
+ d= pn[h];
+ e= pn[h|1];
+ pn[h]= pl[k];
+ pn[h|1]= m= pl[k|1];
+ if (d!=l){
+  pl[k]= d;
+  pl[k|1]= e;
+ }
+ else {
+  pl[k]= n;
+  pl[k|1]= g;
+ }
+ (state->crsbuf)[pn[h]][m]= n;
+ (state->crsbuf)[pn[h]][m|1]= h;
+ h= pn[g|1];
+ (state->crsbuf)[pn[g]][h]= n;
+ (state->crsbuf)[pn[g]][h|1]= g;
+ d= pl[k];
+ e= pl[k|1];
+ (state->crsbuf)[d][e]= l;
+ (state->crsbuf)[d][e|1]= k;
+ pl[ex]= g= (state->crsbuf)[i][ex];
+ pl[ex|1]= h= (state->crsbuf)[i][ex|1];
+ (state->crsbuf)[g][h]= l;
+ (state->crsbuf)[g][h|1]= ex;
+ pn[j]= g= (state->crsbuf)[i][k];
+ pn[j|1]= h= (state->crsbuf)[i][k|1];
+ (state->crsbuf)[g][h]= n;
+ (state->crsbuf)[g][h|1]= j;
+}
+
+int conchk(lmpoly_state_t *state)
+{
+ register short i, j;
+ int vnum, vbrnch, top;
+ char str[20], local_cbuf[XCNT*2];
+ vnum=vbrnch= 0;
+ (state->lowx)= 1;
+ i=top= (state->numcrs)*2;
+ while (i>=0) local_cbuf[i--]=0;
+ i=0;
+ while (i!=top){
+  --(state->lowx);
+  while (local_cbuf[i]==0){
+   local_cbuf[i]=1;
+   i=vnum;
+   j=vbrnch;
+   vnum= (state->crsbuf)[i][j];
+   vbrnch= (state->crsbuf)[i][j|1];
+   if (vnum>=(state->numcrs)){
+    write (1,"error at crossing #",19);
+    write (1,str,ntc((long)(i+1),str,state));
+    write (1,", knot can't have a crossing #",30);
+    write (1,str,ntc((long)(vnum+1),str,state)+1);
+    return (1);
+   }
+   if ((state->crsbuf)[vnum][vbrnch]!=i || ((state->crsbuf)[vnum][vbrnch|1])!=j){
+    write (1,"the possible connection from branch ",36);
+    write (1,str,ntc((long)(i+1),str,state));
+    *str= 'a'+(j>>1);
+    write (1,str,1);
+    write (1," to branch ",11);
+    write (1,str,ntc((long)(vnum+1),str,state));
+    *str= 'a'+(vbrnch>>1);
+    write (1,str,1);
+    write (1," is inconsistent\n",17);
+    return (1);
+   }
+   if (vbrnch==0){
+    write (1,"a-c part of crossing #",22);
+    write (1,str,ntc((long)(vnum+1),str,state));
+    write (1," is oriented backwards\n",23);
+    write (1,"with respect to crossing #",26);
+    write (1,str,ntc((long)(i+1),str,state)+1);
+    return (1);
+   }
+   else if (vbrnch== ((state->sign)[vnum] & 6)){
+    write (1,"b-d part of crossing #",22);
+    write (1,str,ntc((long)(vnum+1),str,state));
+    write (1," is oriented backwards\n",23);
+    write (1,"with respect to crossing #",26);
+    write (1,str,ntc((long)(i+1),str,state)+1);
+    return (1);
+   }
+   i= (vnum<<1) + ((vbrnch>>1)&1);
+   vbrnch^=4;
+  }
+  i=0;
+  while (local_cbuf[i]!=0) ++i;
+  vnum= i/2;
+  if ((i&1)!=0) vbrnch= (state->sign)[vnum] & 6;
+  else vbrnch=0;
+ }
+ return(0);
+}
+
+void mypause(int sig)
+{
+  //(state->restrt)=1;
+ //signal(SIGTERM,pause);  /* pause is now a system function */
+ signal(sig,mypause);
+}
+
+int bust(short tobust,short xpow,short ypow,lmpoly_state_t *state)
+/* short tobust, xpow, ypow; */
+{
+ register unsigned char *fastp, *c;
+ register long *lp1, *lp2;
+ register short i, j, m, k, l, n, *sp;
+ unsigned char *inbuf[XCNT], tsign[XCNT], *bstcrs;
+ int dir;
+ //long lngi;
+ bstcrs= (state->crsbuf)[tobust];
+ fastp=(state->sign);
+ c=tsign;
+ lp2= (long *) *(state->crsbuf);
+ lp1= (long *) ((state->buf)+(state->notbeg));
+ j=0;
+ while (j!=(state->numcrs)){
+  if (j==tobust) ++fastp;
+  *(c++)= *(fastp++);
+  inbuf[j++]= (unsigned char *) lp1;
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+ }
+ fastp= bstcrs;
+ l= (state->sign)[tobust]/2;
+ dir= 2-l;
+ m= fastp[7-l];
+ n= fastp[8-l];
+ j= fastp[3*l-3];
+ k= fastp[3*l-2];
+ inbuf[j][k]= m;
+ inbuf[j][k|1]= n;
+ inbuf[m][n]= j;
+ inbuf[m][n|1]= k;
+ m= fastp[5-l];
+ n= fastp[6-l];
+ j= fastp[3-l];
+ k= fastp[4-l];
+ inbuf[j][k]= m;
+ inbuf[j][k|1]= n;
+ inbuf[m][n]= j;
+ inbuf[m][n|1]= k;
+ k= (state->numcrs)-1;
+     /* squish crossing out of the list (tsign has already been squished) */
+ i= k-tobust;
+ lp1= (long *) inbuf[tobust];
+ lp2=lp1+(state->suplng);
+ while (i--!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+ }
+     /* renumber branch pointers (subtract 1 if the crossing was after) */
+ (state->notbeg)+= (state->numcrs)*8;
+ fastp= *inbuf;
+ while (++i!=k){
+  fastp[1]|= tsign[i]<<4;
+  j=5;
+  while (--j!=0){
+   if (*fastp>=tobust) --*fastp;
+   fastp+=2;
+  }
+ }
+ fastp= (state->buf)+(state->notbeg)-7;
+ *fastp= *(fastp-1)=0;
+ if (ypow+dir<0){
+  *fastp=1;
+  (state->buf)[(state->notbeg)-2]= -ypow-dir;
+ }
+ else (state->buf)[(state->notbeg)-2]= ypow+dir;
+ if ((xpow&512) ==0) (state->buf)[(state->notbeg)-8]=1;
+ *++fastp= (state->neglnk);
+ *++fastp= (state->poslnk);
+ *++fastp= (state->numlps);
+ *++fastp= xpow+1;
+ (state->buf)[(state->notbeg)-1]= i;
+ fastp= bstcrs;
+ sp= (short *) fastp;
+ j= *sp;
+ *sp= sp[l];
+ sp[l]= sp[2];
+ sp[2]= sp[l^2];
+ sp[l^2]= j;
+ (state->sign)[tobust]^=4;
+ (state->crsbuf)[*fastp][fastp[1]|1]=0;
+ (state->crsbuf)[fastp[2]][fastp[3]|1]=2;
+ (state->crsbuf)[fastp[4]][fastp[5]|1]=4;
+ (state->crsbuf)[fastp[6]][fastp[7]|1]=6;
+ return (dir*2);
+}
+
+void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state)
+/*unsigned char *c, *p;*/
+{
+ register short j, k, m, n;
+ register unsigned char *ccb;
+ k= *c;
+ j= c[1];
+ ccb= (state->crsbuf)[k]+j;
+ n= *ccb= *p;
+ m= ccb[1]= p[1];
+ ccb= (state->crsbuf)[n]+m;
+ *ccb= k;
+ ccb[1]= j;
+}
+
+void squish(short sqush,lmpoly_state_t *state)
+/* short sqush; */
+{
+ register short i, j, tosqsh;
+ register unsigned char *p, *c;
+ register long *lp1, *lp2;
+       /* squish crossing out of the list */
+ tosqsh= sqush;
+ j= --(state->numcrs)-tosqsh;
+ lp1= (long *) (state->crsbuf)[tosqsh];
+ lp2=lp1+(state->suplng);
+ p= (state->sign)+tosqsh;
+ c=p+1;
+ while (j--!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+  *(p++)= *(c++);
+ }
+    /* renumber branch pointers (subtract 1 if the crossing was after) */
+ i= (state->numcrs);
+ p= (state->crsbuf)[i];
+ while (i--!=0){
+  j=5;
+  while (--j!=0){
+   p-=2;
+   if (*p>=tosqsh) --*p;
+  }
+ }
+}
+
+void sqush2(short n,short g,lmpoly_state_t *state)
+/* short n, g; */
+{
+ long *lp1, *lp2;
+ register unsigned char *p, *c;
+ register short m, i, j;
+     /* squish crossings out of the list */
+ i= n;
+ m= g;
+ if (m>i){
+  j=m;
+  m=i;
+  i=j;
+ }
+ lp1= (long *) (state->crsbuf)[m];
+ lp2=lp1+(state->suplng);
+ p=(state->sign)+m;
+ c=p+1;
+ j= i-m;
+ while (--j!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+  *(p++)= *(c++);
+ }
+ lp2+=(state->suplng);
+ ++c;
+ j= (state->numcrs)-i;
+ (state->numcrs)-=2;
+ while (--j!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+  *(p++)= *(c++);
+ }
+    /* renumber branch pointers (subtract 1 if the crossing was after) */
+ p= (state->crsbuf)[(state->numcrs)];
+ n= (state->numcrs);
+ while (n--!=0){
+  j=5;
+  while (--j!=0){
+   p-=2;
+   if (*p>=i) --*p;
+   if (*p>=m) --*p;
+  }
+ }
+}
+
+void triple(short m,short i,unsigned char *p,lmpoly_state_t *state)
+/*short m, i;
+  unsigned char *p; */
+{
+ register unsigned char *crsi, *crsk;
+ register short j, d, e, n, h, k;
+ crsi= p;
+ n= m^4;
+ k= crsi[m];
+ crsk= (state->crsbuf)[k];
+ j= crsi[m|1];
+ d= crsk[j]= crsi[n];
+ e= crsk[j|1]= crsi[n|1];
+ (state->crsbuf)[d][e]= k;
+ (state->crsbuf)[d][e|1]= j;
+ j^=4;
+ d= crsi[m]= crsk[j];
+ e= crsi[m|1]= crsk[j|1];
+ (state->crsbuf)[d][e]= i;
+ (state->crsbuf)[d][e|1]= m;
+ crsi[n]= k;
+ crsi[n|1]= j;
+ crsk[j]= i;
+ crsk[j|1]= n;
+ j^=2;
+ n= crsk[j];
+ h= crsk[j|1]^4;
+ d= crsk[j]= (state->crsbuf)[n][h];
+ e= crsk[j|1]= (state->crsbuf)[n][h|1];
+ (state->crsbuf)[d][e]= k;
+ (state->crsbuf)[d][e|1]= j;
+ j^=4;
+ n= crsk[j];
+ h= crsk[j|1]^4;
+ d= crsk[j]= (state->crsbuf)[n][h];
+ e= crsk[j|1]= (state->crsbuf)[n][h|1];
+ (state->crsbuf)[d][e]= k;
+ (state->crsbuf)[d][e|1]= j;
+ j=m^2;
+ n= crsi[j];
+ h= crsi[j|1]^4;
+ d= crsi[j]= (state->crsbuf)[n][h];
+ e= crsi[j|1]= (state->crsbuf)[n][h|1];
+ (state->crsbuf)[d][e]= i;
+ (state->crsbuf)[d][e|1]= j;
+ j^=4;
+ m= crsi[j];
+ h= crsi[j|1]^4;
+ d= crsi[j]= (state->crsbuf)[m][h];
+ e= crsi[j|1]= (state->crsbuf)[m][h|1];
+ (state->crsbuf)[d][e]= i;
+ (state->crsbuf)[d][e|1]= j;
+ sqush2(n,m,state);
+}
+
+int tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state)
+/* short h, *bstlst, *dspair, *skflag; */
+{
+ register short d, g, i, j, m, length, *q, *sp;
+ register unsigned char *p, *tp = NULL, *vp; // Added init for tp. JC
+ short k = 0, n, lngsum, badcrs = 0, vertex, lngpos = 0, i1, i2, i3, j1, j2, j3;
+ sp=q= (state->tt);  /* # of overs and unders were passed in through *(state->tt) and [2] */
+ lngsum= n= 0;
+ if (*(state->tt) > (state->tt)[2]) n=2;
+ else if (*(state->tt) == (state->tt)[2]) lngsum=1;   /* need to test BOTH overs & unders */
+ vp= (state->clist);
+ vertex=h;
+ while (vertex-->0) *(sp++)= *(vp++);   /* make a working copy of (state->clist) */
+ i= h-1;
+ if ((h&1)!=(length=0)) vertex= (state->clist)[i];
+ else {
+  if ((state->donlnk)[XCNT]==0){   /* if my check-off list is now invalid */
+   d= (state->numcrs);             /* re-set it all to 0 */
+   while (d-->0) (state->donlnk)[d]= 0;
+   (state->donlnk)[XCNT]=1;
+  }
+  if (((state->donlnk)[(state->clist)[i]]&((state->t)[i]+2))!=0) return(0);
+ }
+ m=j= h/2;
+ *sp= -1;
+ p=state->t;
+ while (j-->length){
+  i=2;
+  while (*q==1024){
+   ++q;
+   ++p;
+  }
+  d= *q;
+  if (*(p++)==0) i+= (state->sign)[d];
+  g= (state->crsbuf)[d][i&6];
+  sp= ++q;
+  while (*sp>=0 && *sp!=g) ++sp;
+  if (*sp<0) j= -10;
+  else if (*sp==vertex) length= -1;
+  else *sp= 1024;
+ }
+ if (j== -11){
+  d=h;
+  sp=q= (state->tt);
+  vp= (state->clist);
+  while (d-->0) *(sp++)= *(vp++);
+  length=0;
+  p=state->t;
+  while (m-->length){
+   i=6;
+   while (*q==1024){
+    ++q;
+    ++p;
+   }
+   d= *q;
+   if (*(p++)==0) i+= (state->sign)[d];
+   g= (state->crsbuf)[d][i&6];
+   sp= ++q;
+   while (*sp>=0 && *sp!=g) ++sp;
+   if (*sp<0) m= -10;
+   else if (*sp==vertex) length= -1;
+   else *sp= 1024;
+  }
+  j-=m;
+ }
+ if (vertex< (length=lngsum=d=m= 0)){  /* if a link */
+  tp=p= state->t;
+  while ((n^*(p++))==0) ++d;  /* find first bad crossing and move it to the */
+  vp= (state->clist)+d;                /* front so that (state->clist) cannot break a string */
+  --p;                        /* of good crossings in a link from */
+  sp= (state->tt);                     /* (state->clist)[h-1] to (state->clist)[0] */
+  i=m= h-d;
+  while (m-->0){
+   (state->donlnk)[*vp]|= *(p++)+2;  /* also check off all list elements to assure */
+   *(sp++)= *(vp++);        /* this link never comes to tstcir again with */
+  }                         /* a different beginning crossing */
+  m=d;
+  vp= (state->clist);
+  while (m-->0){
+   (state->donlnk)[*vp]|= *tp+2;
+   *(sp++)= *vp;
+   *(vp++)= *(tp++);
+  }
+  p=state->t;
+  while (i-->0) *(p++)= *(tp++);
+  vp= (state->clist);
+  while (d-->0) *(p++)= *(vp++);
+  d=m= 0;
+ }
+ else {
+  sp= (state->tt);
+  vp= (state->clist);
+  i= h;
+  while (i-->0) *(sp++)= *(vp++);
+ }
+ p=state->t;
+ g= h|1;         /* find the longest good string & put in "length" */
+ (state->t)[g]= (state->t)[g-1];   /* also, the longest with only 1 bad crossing in "lngsum" */
+ (state->t)[g-1]= n^2;    /* badcrs is the bad crossing in lngsum */
+ while (++i<g){
+  if ((n^*(p++)) ==0) ++d;
+  else {
+   if (d>=length){
+    length=d;
+    k= i-d;
+   }
+   if (m+d>=lngsum){
+    lngsum= m+d+1;
+    if (d==0) tp= p-3;  /* tp points to a generic good crossing in lngsum */
+    else tp= p-2;
+    if (d!= (lngpos=i)) badcrs= (state->tt)[i-d-1];
+    else badcrs= (state->tt)[i];
+   }
+   m=d;
+   d=0;
+  }
+ }
+ i= h/2;
+ if (vertex>=0 && length>=i){ /* can this circuit untwist its vertex? */
+   if (k==0 && (*(state->t)^*p)!=0) return (skinny(1,h,(short) 0,state));
+   else if (k+length+1==h && ((state->t)[k]^*p)==0) return (skinny(1,h,i,state));
+ }
+ if (j==0 && length>=i){     /* circuit is not skinny, and can be skinnied */
+  if (vertex>= (i1=0) && length==i){
+   m= k+i;
+   *(p-1)= *p;     /* infinite loops happen when the loose strand is shared */
+   d= (state->tt)[m-1];        /* between 2 intersecting circuits -- skflag prevents */
+   while (m>=k){           /* looping, allows me to skinny once per bust!   */
+    vp= (state->crsbuf)[(state->tt)[m]];
+    if ((state->t)[m]!=0) j=2;
+    if (vp[j]==d || vp[j^4]==d) m=i1= -1;  /* possible inf. loop circuit! */
+    else j=0;
+    m-=i;
+    if (k==0) d= (state->tt)[h-1];
+    else d=(state->tt)[k-1];
+   }
+  }
+  if (i1== (j=0)) return (skinny(0,h,k,state)); /* OK to skinny it! */
+  if (*skflag==0){
+   *skflag=1;
+   return (skinny(0,h,k,state)); /* OK to do ONE skinny */
+  }
+ }
+ if (lngsum>=i){
+  if (lngsum == h-2) lngsum=h;   /* a link w/only 2 crossings vanishes! */
+  d= (lngsum-i)*8;  /* and find all the extra benefits of badcrs */
+  if (j==0) ++d;    /* give one point for doing a skinny */
+  if (vertex>=0){
+   if (lngpos==lngsum && (*tp^*p)!=0) d+=4;
+   else if (lngpos+1==h && (*tp^*p)==0) d+=4;
+   else if (lngsum+1==h) d+=4;
+  }
+  if (d==8 && length==lngsum-1) d=0; /* this is really just a fake bigon */
+  if (j==0 && d!=0 && (state->numcrs)+ 2*(i-lngsum)>11) d+=2;
+  if ((k=lngpos-lngsum)!= (m=0) && d!=0){
+   if ((state->t)[k]!=0) m= (state->sign)[(state->tt)[k]];
+   if ((state->crsbuf)[(state->tt)[k]][m] == (state->tt)[k-1]) ++d;
+   if (k!=1 && ((state->t)[k-2]^(state->t)[k-1])!=0) ++d;
+  }
+  if (lngpos+1 != g && d!=0){
+   if ((state->t)[lngpos]!= (m=0)) m= (state->sign)[(state->tt)[lngpos]];
+   if ((state->crsbuf)[(state->tt)[lngpos]][m] == (state->tt)[lngpos-1]) ++d;
+   if (lngpos+2 !=g && ((state->t)[lngpos+1]^(state->t)[lngpos])!=0) ++d;
+  }
+  if (d<6 && j==0){    /* min. one point for making skinny circuits */
+   if (bstlst[badcrs]==0) bstlst[badcrs]= *dspair= 1;
+  }
+  else {
+   *dspair=1;
+   (state->donlnk)[badcrs]=0;  /* from badcrs's perspective, link may be better */
+   if (bstlst[badcrs]<0){
+    if (bstlst[badcrs]> -8-d) bstlst[badcrs]= -8-d;
+   }
+   else if (bstlst[badcrs]<d) bstlst[badcrs]=d;
+  }
+ }
+ else {
+  k= h/4;
+  if (*dspair<k) k= *dspair;
+  m=1;
+  while (m++<k){
+   tp=state->t;
+   *(state->gapsto)=j= 0;
+   d= m+1;
+   while (--d>0){
+    while ((*(tp++)^n) ==0) ++j;
+    (state->gapsto)[d]= j++;
+   }
+   while (j<g){
+    while ((*(tp++)^n) ==0) ++j;
+    length= (j-(state->gapsto)[d]-i)*4 +2;
+    if (length>0 && (m<*dspair || (m== *dspair && length>=dspair[1]))){
+     if (m<*dspair || length>dspair[1]) dspair[3]=0;
+     *dspair=m;
+     dspair[1]= length;
+     length=lngpos= 0;
+     if (d!=m) lngpos= d+1;
+     j1= j;
+     j2= (state->gapsto)[lngpos];
+     h=m;
+     while (h-->0){
+      if (++lngpos>m) lngpos=0;
+      vertex= (state->tt)[j2];
+      j3= (state->gapsto)[lngpos];
+      lngsum= j1-j3;
+      p= (state->crsbuf)[vertex];
+      i1= (state->sign)[vertex];
+      i2= p[i1];
+      i3= p[i1|1];
+      i1^=4;
+      if ((state->crsbuf)[i2][(i3+i1)&6]== p[4]){
+	//if ((p[5]^i3&2) !=0) lngsum= -1 -lngsum;
+	/* According to wikipedia, the & should come first, so this is */
+	if ((p[5]^(i3&2)) !=0) lngsum= -1 -lngsum;
+       else lngsum= -10 -lngsum;
+      }
+      i2= p[i1];
+      i3= p[i1|1];
+      if ((state->crsbuf)[i2][(i3+i1)&6]== *p){
+	if ((p[1]^(i3&2)) !=0){  // The same is true here
+        if (lngsum<0) lngsum-=5;
+        else lngsum= -1 -lngsum;
+       }
+       else if (lngsum<0) lngsum-= 10;
+       else lngsum= -10 -lngsum;
+      }
+      if (lngsum<0){
+       if (length>lngsum){
+        length= lngsum;
+        badcrs= vertex;
+       }
+      }
+      else if (length>=0 && length<lngsum){
+       length= lngsum;
+       badcrs= vertex;
+      }
+      j1=j2;
+      j2=j3;
+     }
+     i1= dspair[3];
+     if (length<0){
+      if (i1>length){
+       dspair[2]= badcrs;
+       dspair[3]= length;
+      }
+     }
+     else if (i1>=0 && i1<length){
+      dspair[2]= badcrs;
+      dspair[3]= length;
+     }
+     k=0;
+    }
+    (state->gapsto)[d--]= j++;
+    if (d<0) d=m;
+   }
+  }
+ }
+ return(0);
+}
+
+int skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state)
+/* short lencir, lngpos;
+   int twist; */
+{
+ register short a, b, g, n, vnum, dir, *c;
+ register unsigned char *p, *q, *cp;
+ short i, j, k, m, last, f, v2; //*sp;
+ vnum= -1;     /* assume circuit is a link */
+ dir= 6;       /* and I will be placing loose strand LEFT of fixed strand */
+ if ((lencir&1)!= (b=0)){
+  vnum= (state->tt)[lencir-1];                /* if not a link */
+  if (((state->t)[lencir-1]=(state->t)[lencir]) ==0) b= (state->sign)[vnum];
+    /* tstcir wrecks (state->t)[lencir-1] on non-links but saves a copy! */
+ }
+ if (vnum>=0){
+  g=vnum;      /* SET DIR PROPERLY!! */
+  while (b>=0){        /* if VERTEX is left of fixed strand, set dir RIGHT */
+   p=(state->crsbuf)[g]+b;  /* there is also a special case if I am untwisting */
+   g= *p;
+   b= *(p+1)^4;  /* walk out from the vertex -- do I run into the circuit? */
+   a=lencir;
+   c= (state->tt);
+   while (a>0 && *(c++)!=g) --a;
+   if (a>0){
+    if (*--c!=vnum){
+     if (b==0) dir= (state->sign)[*c]^4;     /* yes */
+     else dir=b;
+    }
+    else {
+     g= *(state->tt);     /* no -- I ran back into the vertex again */
+     b=6;              /* trace the first left region of the circuit */
+     if (*(state->t)==0) b=(state->sign)[g]-2;
+     n= (state->tt)[lencir-2];  /* does it connect to the other side of the circuit? */
+     while (g!=vnum && g!=n){
+      p= (state->crsbuf)[g]+b;
+      g= *p;
+      b= (*(p+1)+2)&6;
+     }
+     if (g==vnum) dir=2;  /* no -- vertex is left of fixed strand */
+    }
+    b= -1;
+   }
+  }
+  if (twist!=0) dir^=4;
+ }
+ a=j= lencir/2;   /* to move strand, remove it - then reinsert crossings by */
+ p= (state->clist);       /* hand.  Put moveable crossings in (state->clist) & call rmcir */
+ c= (state->tt)+lngpos;
+ while (a-->0) *(p++)= *(c++);
+ --(state->numlps);                   /* rmcir adds a (state->numlps) for fun */
+ rmcir (j,(short) 0,a,(state->t)+lngpos,1,state);
+ i=k= lngpos+j;
+ if (vnum>=0){
+  --lencir;
+  if (lngpos==0 && twist==0) twist= -1;
+ }
+ else if (i==lencir) i=0;
+ if (twist> (m=b= 0) && lngpos!=0){
+  if ((state->t)[lencir]==0) b= (state->sign)[vnum];
+  last= (state->crsbuf)[vnum][b];   /* set last properly if I am untwisting vertex */
+  f= (state->crsbuf)[vnum][b|1];
+ }
+ else {
+  last= (state->tt)[i];  /* set last to automatically hook up one of the bigon ends */
+  f= 4;
+  if ((state->t)[i]==0) f= (state->sign)[last]^4;
+ }
+ if ((state->t)[--k]==0) m=4;
+ while (j-->0){
+  if (i==lencir) i=0;
+  g=dir;
+  vnum= (state->tt)[i];   /* vnum is the crossing on the fixed strand */
+  b= (state->sign)[vnum];
+  if ((state->t)[i++]==0) g+=b;
+  else b^=4;
+  p= (state->crsbuf)[last]+f;  /* reconnect the loose end from the last loop to the */
+  *(p++)= n= (state->tt)[k--];  /* present n */
+  q= (state->crsbuf)[n];   /* n is the crossing on the loose strand - q points to it */
+  (state->sign)[n]= a= b^m;   /* this calculation for (state->sign)[n] is a 2 step trick */
+  if (m==0){
+   a=0;
+   b=dir;
+  }
+  else b^=dir;
+  *p=a;
+  q[a]= last;   /* reconnect last going FOREWARDS along loose strand from n */
+  q[a+1]=f;
+  f= a^4;
+  g&=6;
+  cp= (state->crsbuf)[vnum]+g;
+  v2= *cp;             /* v2 is one step out the dir branch of fixed strand */
+  *(cp++)= last= n;
+  a= *cp;    /* reconnect vnum to n instead (insert n) */
+  *cp=b;
+  p= q+b;
+  *(p++)= vnum;   /* mutual from n to vnum */
+  *p=g;
+  b^=4;
+  p= (state->crsbuf)[v2]+a;  /* insert n from v2 side */
+  *(p++)= n;
+  *p=b;
+  p= q+b;     /* mutual connect from n */
+  *(p++)= v2;
+  *p=a;
+ }
+ if (twist!=0){       /* reconnect the loose end properly */
+  vnum=(state->tt)[lencir];
+  if ((state->t)[lencir]!= (dir=b=0)) dir=b=(state->sign)[vnum];
+  if (twist>0){
+   p= (state->crsbuf)[vnum];
+   if (lngpos==0){
+    n= p[b^4];
+    b= p[b^5];
+    if ((state->t)[lencir]== (dir=0)) dir=(state->sign)[vnum];
+   }
+   else {
+    n= (state->tt)[--i];
+    if ((state->t)[i]== (b=0)) b=(state->sign)[n];
+   }
+   a= p[dir];
+   g= p[dir|1];
+   k= p[dir^5];
+   dir= p[dir^4];
+   (state->crsbuf)[a][g]= dir;
+   (state->crsbuf)[a][g|1]=k;
+   (state->crsbuf)[dir][k]=a;
+   (state->crsbuf)[dir][k|1]=g;
+  }
+  else twist=0;
+ }
+ else if ((state->t)[--i]== (b=0)) b= (state->sign)[(state->tt)[i]];
+ if (twist==0) n= (state->tt)[i];
+ (state->crsbuf)[last][f]= n;
+ (state->crsbuf)[last][f|1]= b;
+ (state->crsbuf)[n][b]= last;
+ (state->crsbuf)[n][b|1]= f;
+ if (twist!=0) squish(vnum,state); /* if I untwisted vertex, now eliminate it */
+ return(1);
+}
-- 
2.43.0


From 0602a94e5bfbbd52c84b4e98d7e044df5d1bec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:30 +0000
Subject: [PATCH 068/110] fix: a full strut list keeps the struts that are
 wanted in the end

---
 src/octrope.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/octrope.c b/src/octrope.c
index c319f16..d2335e0 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -1381,6 +1381,7 @@ void check_boxes(const plCurve *L, box *B, plc_vector verts[3],
   int edge;
   double s,t,dist;
   octrope_strut *st_ptr;
+  int st_idx;
   int t_last; /* the check_edge is the final edge of an open component */
 #ifdef DEBUG
   plc_vector s_end,t_end; /* the two ends of the poca */
@@ -1477,6 +1478,15 @@ void check_boxes(const plCurve *L, box *B, plc_vector verts[3],
                 }
 #endif
                 st_ptr = st;
+                if (cutoff == 0) { /* ...unless it might be among those wanted: *
+                                    * then the longest one is thrown out        */
+                  for (st_idx = 1; st_idx < *strut_count; st_idx++) {
+                    if (st[st_idx].length > st_ptr->length) {
+                      st_ptr = &st[st_idx];
+                    }
+                  }
+                  if (dist >= st_ptr->length) { continue; } /* It's this one */
+                }
               }
             }
             st_ptr->component[0] = bo_me->component;
-- 
2.43.0


From 21834300fe2d60a4c5a3823f0332584ea236e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:30 +0000
Subject: [PATCH 069/110] fix: a full list of minrad locations keeps the
 smallest

---
 src/minrad.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/minrad.c b/src/minrad.c
index e3b2e11..ed894d3 100755
--- a/src/minrad.c
+++ b/src/minrad.c
@@ -141,6 +141,17 @@ double octrope_minrad(plCurve *L,
 	      min_rad_locs[*num_min_rad_locs].compression = 0;
 	    
               (*num_min_rad_locs)++;
+            } else if (mr_size > 0) { /* The largest one has to go. */
+              for (k = 0, l = 1; l < mr_size; l++) {
+                if (min_rad_locs[l].mr > min_rad_locs[k].mr) { k = l; }
+              }
+              if (mrminus < min_rad_locs[k].mr) {
+                min_rad_locs[k].component = i;
+                min_rad_locs[k].vert = j;
+                min_rad_locs[k].svert = j-1;
+                min_rad_locs[k].mr = mrminus;
+                min_rad_locs[k].compression = 0;
+              }
             }
           }
         }
@@ -173,6 +184,17 @@ double octrope_minrad(plCurve *L,
 	      min_rad_locs[*num_min_rad_locs].compression = 0;
   
               (*num_min_rad_locs)++;
+            } else if (mr_size > 0) { /* The largest one has to go. */
+              for (k = 0, l = 1; l < mr_size; l++) {
+                if (min_rad_locs[l].mr > min_rad_locs[k].mr) { k = l; }
+              }
+              if (mrplus < min_rad_locs[k].mr) {
+                min_rad_locs[k].component = i;
+                min_rad_locs[k].vert = j;
+                min_rad_locs[k].svert = j+1;
+                min_rad_locs[k].mr = mrplus;
+                min_rad_locs[k].compression = 0;
+              }
             }
           }
         }
-- 
2.43.0


From 28aa1913158a9a2fdb9ee5b191778cd5d922fa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:30 +0000
Subject: [PATCH 070/110] fix: octrope() reports the length of the shortest
 strut even beyond the cutoff

---
 src/octrope.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/octrope.c b/src/octrope.c
index d2335e0..632ceaf 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -1915,7 +1915,6 @@ void octrope(plCurve *L,
     num_struts = octrope_struts(L,strut_cutoff,strut_epsilon,strutlist,
                                 sl_size,&min_strutlength,mem,memsize);
  
-    if (min_strut_ret != NULL) { *min_strut_ret = min_strutlength; }
     if (num_strut_ret != NULL) { *num_strut_ret = num_struts; }
 #ifdef DEBUG
     if (octrope_debug_level() > 0) {
@@ -1930,6 +1929,8 @@ void octrope(plCurve *L,
       octrope_struts(L,DBL_MAX,0,NULL,0,&min_strutlength,NULL,0);
 
     }
+
+    if (min_strut_ret != NULL) { *min_strut_ret = min_strutlength; }
       
   }
   
-- 
2.43.0


From 70e2b019fbe6634048a01183f762abaef0746eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:30 +0000
Subject: [PATCH 071/110] fix: plc_s counts only the edges that open components
 have

---
 src/plCurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 34ee651..d39a494 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -236,7 +236,7 @@ double plc_s(const plCurve * const L, const int cmp, const int vert)
 
   for(c = 0;c < cmp;c++) {
 
-    for(v = 1;v <= L->cp[c].nv; v++) {
+    for(v = 1;v <= (L->cp[c].open ? L->cp[c].nv-1 : L->cp[c].nv); v++) {
 
       d = plc_M_sq_dist(L->cp[c].vt[v-1],L->cp[c].vt[v])  /* ok not to ; */
       s += sqrt(d);	
-- 
2.43.0


From 2a71a30b26a7f5e9bbca5ac24e5aa6e074f94c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:12 +0000
Subject: [PATCH 072/110] fix: octrope_strutfile_read refuses bad files and
 leaves no half-read lists

---
 src/octrope.c | 49 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index 632ceaf..d070325 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2131,14 +2131,17 @@ void octrope_strutfile_read(plCurve *L,
                             FILE *file)
 
 {
-  int i;
+  int i,matched = 0;
   octrope_strut ts;
   octrope_mrloc tmr;
   
   /* First, we check for the 'STRUTS' keyword. */
   
   octrope_error_num = octrope_error_str[0] = 0;
-  if (fscanf(file," STRUTS ") == EOF) {
+  *n_struts = *n_mrloc = 0;
+  *strutlist = NULL;
+  *mrlist = NULL;
+  if (fscanf(file," STRUTS %n",&matched) == EOF || matched == 0) {
     
     octrope_error_num = 20;
     sprintf(octrope_error_str,
@@ -2153,7 +2156,7 @@ void octrope_strutfile_read(plCurve *L,
     octrope_error_num = 30;
     sprintf(octrope_error_str,
             "octrope_strutfile_read: Couldn't parse <struts> <mrlocs> line");
-    return;
+    goto fail;
   }
 
   if (*n_struts < 0 || *n_mrloc < 0 || *n_struts > 1E6 || *n_mrloc > 1E6) {
@@ -2164,7 +2167,7 @@ void octrope_strutfile_read(plCurve *L,
       " seems unlikely.\n"
       "                        Only 1,000,000 struts are allowed.\n",
       *n_struts,*n_mrloc);
-    return;
+    goto fail;
   }
 
   /* Now we allocate space for the struts and mrlocs. */
@@ -2172,13 +2175,14 @@ void octrope_strutfile_read(plCurve *L,
   (*strutlist) = (octrope_strut *)calloc(*n_struts,sizeof(octrope_strut));
   (*mrlist)    = (octrope_mrloc *)calloc(*n_mrloc,sizeof(octrope_mrloc));
 
-  if (strutlist == NULL || mrlist == NULL) {
+  if ((*strutlist == NULL && *n_struts > 0) ||
+      (*mrlist == NULL && *n_mrloc > 0)) {
 
     octrope_error_num = 50;
     sprintf(octrope_error_str,
       "octrope_strutfile_read: Couldn't allocate space for "
       "%d struts and %d mrloc records.\n",*n_struts,*n_mrloc);
-    return;
+    goto fail;
 
   }
 
@@ -2196,25 +2200,27 @@ void octrope_strutfile_read(plCurve *L,
       sprintf(octrope_error_str,
         "octrope_strutfile_read: Couldn't parse strut %d "
         " component and vertex information.\n",i);
-      return;
+      goto fail;
 
     }
 
     ts = (*strutlist)[i];
 
-    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc) {
+    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc ||
+        ts.component[0] < 0 || ts.component[1] < 0) {
 
       octrope_error_num = 66;
       sprintf(octrope_error_str,
         "octrope_strutfile_read: Component information (%d,%d) "
         " for strut %d doesn't match L, which has %d components.\n",
         ts.component[0],ts.component[1],i,L->nc);
-      return;
+      goto fail;
 
     }
 
     if (ts.lead_vert[0] >= L->cp[ts.component[0]].nv ||
-        ts.lead_vert[1] >= L->cp[ts.component[1]].nv) {
+        ts.lead_vert[1] >= L->cp[ts.component[1]].nv ||
+        ts.lead_vert[0] < 0 || ts.lead_vert[1] < 0) {
 
       octrope_error_num = 67;
       sprintf(octrope_error_str,
@@ -2223,7 +2229,7 @@ void octrope_strutfile_read(plCurve *L,
         ts.lead_vert[0],ts.lead_vert[1], i,
         ts.component[0],ts.component[1],
         L->cp[ts.component[0]].nv, L->cp[ts.component[1]].nv);
-      return;
+      goto fail;
       
     }
     
@@ -2235,7 +2241,7 @@ void octrope_strutfile_read(plCurve *L,
       sprintf(octrope_error_str,
         "octrope_strutfile_read: Couldn't parse strut %d "
         " position, length, and compression information.\n",i);
-      return;
+      goto fail;
 
     }
     
@@ -2251,7 +2257,7 @@ void octrope_strutfile_read(plCurve *L,
       sprintf(octrope_error_str,
         "octrope_strutfile_read: Couldn't parse mrloc %d "
         " component and vertex information.\n",i);
-      return;
+      goto fail;
 
     } 
     
@@ -2264,7 +2270,7 @@ void octrope_strutfile_read(plCurve *L,
         "octrope_strutfile_read: Mrloc %d "
         " component information %d doesn't match L, which has %d components.\n"
               ,i,tmr.component,L->nc);
-      return;
+      goto fail;
 
     }
 
@@ -2275,7 +2281,7 @@ void octrope_strutfile_read(plCurve *L,
               " vertex information %d doesn't match component %d of L, which "
               " has %d vertices.\n",i,tmr.vert,tmr.component,
               L->cp[tmr.component].nv);
-      return;
+      goto fail;
 
     }
 
@@ -2285,12 +2291,23 @@ void octrope_strutfile_read(plCurve *L,
       sprintf(octrope_error_str,
         "octrope_strutfile_read: Couldn't parse mrloc %d "
         " mr and compression information.\n",i);
-      return;
+      goto fail;
 
     } 
                 
   }
 
+  if (!ferror(file)) { return; }
+
+  octrope_error_num = 96;
+  sprintf(octrope_error_str,
+    "octrope_strutfile_read: The file could not be read to the end.\n");
+
+ fail: /* Don't leave half-read lists behind. */
+
+  free(*strutlist); *strutlist = NULL; *n_struts = 0;
+  free(*mrlist);    *mrlist = NULL;    *n_mrloc = 0;
+
 }
 
 
-- 
2.43.0


From 76af06bde9f6abdc52994ac9f0bd9892987013a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:12 +0000
Subject: [PATCH 073/110] fix: strut files keep the full precision of their
 numbers

---
 src/octrope.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index d070325..d3eccb8 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2361,7 +2361,7 @@ void octrope_strutfile_write(int n_struts,octrope_strut *strutlist,
   
   for(i=0;i<n_struts;i++) {
 
-    fprintf(file,"%d %d %d %d %16g %16g %16g %16g\n",
+    fprintf(file,"%d %d %d %d %.17g %.17g %.17g %.17g\n",
             strutlist[i].component[0],
             strutlist[i].component[1],
             strutlist[i].lead_vert[0],
@@ -2375,7 +2375,7 @@ void octrope_strutfile_write(int n_struts,octrope_strut *strutlist,
 
   for(i=0;i<n_mrloc;i++) {
 
-    fprintf(file,"%d %d %16g %16g \n",
+    fprintf(file,"%d %d %.17g %.17g \n",
             mrlist[i].component,
             mrlist[i].vert,
             mrlist[i].mr,
-- 
2.43.0


From 80ea80895cb369e04431bb733f5149e0e6d8aaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:41 +0000
Subject: [PATCH 074/110] fix: plc_dihedral_angles returns the dihedrals there
 are and keeps to an odd cap

---
 src/plc_dihedrals.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/plc_dihedrals.c b/src/plc_dihedrals.c
index bc7890c..9a0e4ac 100644
--- a/src/plc_dihedrals.c
+++ b/src/plc_dihedrals.c
@@ -41,6 +41,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 #include <time.h>
 
 #ifdef HAVE_GSL_GSL_COMBINATION_H
@@ -61,7 +62,10 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
 {
   int n = L->cp[0].nv;
 
-  unsigned int max_ndihedrals = (n*(n-1)*(n-2)*(n-3)*(n-4))/4;
+  /* There are two diagonals for each of the (n 4) quadruples. */
+
+  double count = n < 4 ? 0 : ((double)(n)*(n-1)*(n-2)*(n-3))/12;
+  unsigned int max_ndihedrals = count < UINT_MAX ? (unsigned int)(count) : UINT_MAX;
 
   if (*ndihedrals == 0) { 
 
@@ -74,11 +78,11 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
   }
 
   float *angles;
-  angles = calloc(*ndihedrals,sizeof(float));
+  angles = calloc(*ndihedrals > 0 ? *ndihedrals : 1,sizeof(float));
   
-  if (angles == NULL) { 
+  if (angles == NULL || *ndihedrals == 0) { 
 
-    return NULL;
+    return angles;
 
   }
 
@@ -107,6 +111,8 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
     angles[i] = plc_angle(plc_normal(a,b,d,&ok1),plc_normal(b,c,d,&ok2),&ok3);
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
     i++;
+
+    if (i == *ndihedrals) { break; } /* The cap may be odd. */
     
     angles[i] = plc_angle(plc_normal(a,b,c,&ok1),plc_normal(c,d,a,&ok2),&ok3);
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
-- 
2.43.0


From 5babc148a8f89a24c953b148414ee6ec36a7f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:41 +0000
Subject: [PATCH 075/110] fix: plc_turning_angle sets its ok flag at the ends
 of open components

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index d39a494..752cec0 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1639,6 +1639,7 @@ double plc_turning_angle(plCurve * const L, const int cp, const int invt, bool *
   
   if (L->cp[cp].open && (vt <= 0 || vt >= L->cp[cp].nv-1)) { // Addressing past ends of open curve yields zero
 
+    if (ok != NULL) { *ok = true; }
     return 0;
 
   } 
-- 
2.43.0


From 6fed78cb0cd4403e09d3ecec04f6eb3149fca8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:42 +0000
Subject: [PATCH 076/110] fix: plc_random_rotate turns an axis pointing
 straight down up

---
 src/plCurve.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 752cec0..9fc7af1 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2829,7 +2829,21 @@ void plc_random_rotate(plCurve *link, plc_vector axis)
     plc_fix_wrap(link);
   }
 
-  // else z is essentially 0 so we'll just leave things as is
+  else if (zrand < 0) { // The axis points straight down: turn the curve over
+
+    for(cp=0;cp < link->nc;cp++) {
+      for(vt=0;vt<link->cp[cp].nv;vt++) {
+
+	link->cp[cp].vt[vt].c[1] *= -1;
+	link->cp[cp].vt[vt].c[2] *= -1;
+
+      }
+    }
+
+    plc_fix_wrap(link);
+  }
+
+  // else the axis already points up so we'll just leave things as is
 }
 
 
-- 
2.43.0


From 21cae9e867a2847eb3ed0889476a94bf46d0e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:42 +0000
Subject: [PATCH 077/110] fix: plc_whitten does not read past the end of its
 permutation

---
 src/plwhitten.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index 3f9b729..e6875ef 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -81,7 +81,7 @@ int  iperm(int permsize,int *perm,int ind)
 {
   int i;
 
-  for(i=permsize;i>0;i--) {
+  for(i=permsize-1;i>0;i--) {
     
     if (perm[i] == ind) { return perm[i-1]; }
 
-- 
2.43.0


From 82e85ee1addab040f7ebd8269832f377f839e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:42 +0000
Subject: [PATCH 078/110] fix: plc_whitten keeps constraints on their vertices
 when reversing and permuting

---
 src/plwhitten.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index e6875ef..3624470 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -214,7 +214,7 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
       for(tc=L->cst;tc != NULL;tc=tc->next) {
 
-	tc->vert = (nv-1) - (tc->vert + tc->num_verts); 
+	if (tc->cmp == cp) { tc->vert = nv - (tc->vert + tc->num_verts); }
 
       }
 
@@ -224,6 +224,24 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
   plc_fix_wrap(L);
 
+  /* The constraints are kept in order of component and vertex, so sort them. */
+
+  plc_constraint *sorted = NULL,*next,**pos;
+
+  for(tc=L->cst;tc != NULL;tc=next) {
+
+    next = tc->next;
+
+    for(pos=&sorted;*pos != NULL && ((*pos)->cmp < tc->cmp || 
+	  ((*pos)->cmp == tc->cmp && (*pos)->vert < tc->vert));pos=&((*pos)->next));
+
+    tc->next = *pos;
+    *pos = tc;
+
+  }
+
+  L->cst = sorted;
+
   /* We have now applied everything. */
 
 }
-- 
2.43.0


From 05026060edc995b9e274c9d4cd2becb952963b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:00 +0000
Subject: [PATCH 079/110] fix: plc_read refuses a curve whose last number was
 cut short by a read error

---
 src/plCurve.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 9fc7af1..e7ddd34 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1515,6 +1515,17 @@ void plc_fix_wrap(plCurve * const L) {
     }
   }
 
+  /* A number cut short by a read error looks like a (different) number. */
+  if (ferror(file) != 0) {
+    plc_free(L);
+    assert(cst_list->next == NULL);
+    free(cst_list);
+    *error_num = PLC_E_BAD_VERT_LINE;
+    (void)snprintf(error_str,error_str_len,
+      "plc_read: Read error in the data of the plCurve.\n");
+    return NULL;
+  }
+
   assert(cst_list->next == NULL);
   free(cst_list);
   return L;
-- 
2.43.0


From 1bb397d7f916e3b69786a0614ac27c4fc97dacd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:00 +0000
Subject: [PATCH 080/110] fix: tsmcmc_spiral_triangulation of a triangle does
 not write to its empty chord list

---
 src/plcToricSymplecticTriangulation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 76186e3..ee28540 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -47,7 +47,9 @@ tsmcmc_triangulation_t tsmcmc_spiral_triangulation(int nedges)
   int i,cd;
   for(i=0;i<nedges;i++) { vert_active[i] = true; }
 
-  for(cd=0,chordsys[cd].vt[0] = 0,i=0;cd < nedges-3;cd++) { 
+  if (nedges > 3) { chordsys[0].vt[0] = 0; } /* A triangle has no chords. */
+
+  for(cd=0,i=0;cd < nedges-3;cd++) { 
 
     /* Start assuming that chordsys[cd].vt[0] is set, and equal to i. */
     /* Scan forward until the next active vertex */
-- 
2.43.0


From e406cdcf0872d646c1408f38f43c4dfc9b23c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:00 +0000
Subject: [PATCH 081/110] fix: plcurvature reports files it cannot open or
 write and writes to the file it was given

---
 src/plcurvature.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/plcurvature.c b/src/plcurvature.c
index b497fce..2149ac3 100755
--- a/src/plcurvature.c
+++ b/src/plcurvature.c
@@ -91,7 +91,10 @@ int main(int argc, char *argv[]) {
   }
 
   vectfile = fopen(filename->filename[0],"r");
-  assert(vectfile != NULL);
+  if (vectfile == NULL) {
+    fprintf(stderr,"plcurvature: Couldn't open file %s.\n",filename->filename[0]);
+    return(EXIT_FAILURE);
+  }
   L = plc_read(vectfile,&err_num,err_str,80);
   fclose(vectfile);
   if (err_num > 0) {
@@ -101,9 +104,17 @@ int main(int argc, char *argv[]) {
 
   /* Now create a filename for the curvatures file. */
 
+  if (strlen((outname->count > 0) ? outname->filename[0] : filename->basename[0])
+      > sizeof(curvfilename)-20) {
+
+    fprintf(stderr,"plcurvature: The output filename is too long.\n");
+    return(EXIT_FAILURE);
+
+  }
+
   if (outname->count > 0) { /* The user has given us the filename */
 
-    strcpy(curvfilename,outname->basename[0]);
+    strcpy(curvfilename,outname->filename[0]);
 
   } else {  /* We must make it up on our own. */
 
@@ -122,7 +133,10 @@ int main(int argc, char *argv[]) {
   /* Now we go ahead and fill the file. */
   
   curvfile = fopen(curvfilename,"w");
-  assert(curvfile != NULL);
+  if (curvfile == NULL) {
+    fprintf(stderr,"plcurvature: Couldn't open %s for writing.\n",curvfilename);
+    return(EXIT_FAILURE);
+  }
 
   fprintf(curvfile,
 	  "# Curvature data file for %s output from plcurvature\n"	\
@@ -172,7 +186,10 @@ int main(int argc, char *argv[]) {
   
   /* Done writing, now we close the files and exit. */
 
-  (void) fclose(curvfile);
+  if ((ferror(curvfile) != 0) | (fclose(curvfile) != 0)) {
+    fprintf(stderr,"plcurvature: Couldn't write %s.\n",curvfilename);
+    return(EXIT_FAILURE);
+  }
 
   /* Now, if we are supposed to call Gnuplot, please do */
 
-- 
2.43.0


From 2ca99c68463e0d31941ce8cb20477eaebdfadd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:00 +0000
Subject: [PATCH 082/110] fix: struts and mrlocs report files they cannot open
 or write

---
 src/mrlocs.c | 10 ++++++++--
 src/struts.c | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/mrlocs.c b/src/mrlocs.c
index 1818b3c..4638f54 100644
--- a/src/mrlocs.c
+++ b/src/mrlocs.c
@@ -196,7 +196,7 @@ int main(int argc,char *argv[])
   if (infile_fptr == NULL) {
     
     fprintf(stderr,"mrlocs: Couldn't open file %s.\n",*(infile->filename));
-    exit(0);
+    exit(1);
 
   }
   
@@ -294,8 +294,14 @@ int main(int argc,char *argv[])
     
     /* Now we close files and free memory. */
     
+    if ((ferror(outfile_fptr) != 0) | (fclose(outfile_fptr) != 0)) {
+
+      fprintf(stderr,"mrlocs: Couldn't write %s.\n",outfile_name);
+      exit(1);
+
+    }
+
     printf("mrlocs: %d mrlocs written to %s.\n",n_mr,outfile_name);
-    fclose(outfile_fptr);   
       
   } else {
     printf("mrlocs: %d mrlocs found.\n",n_mr);
diff --git a/src/struts.c b/src/struts.c
index f737bba..ceaf33d 100755
--- a/src/struts.c
+++ b/src/struts.c
@@ -291,7 +291,7 @@ int main(int argc,char *argv[]) {
   if (infile_fptr == NULL) {
     
     fprintf(stderr,"struts: Couldn't open file %s.\n",*(infile->filename));
-    exit(0);
+    exit(1);
 
   }
   
@@ -420,8 +420,14 @@ int main(int argc,char *argv[]) {
     
     /* Now we close files and free memory. */
     
+    if ((ferror(outfile_fptr) != 0) | (fclose(outfile_fptr) != 0)) {
+
+      fprintf(stderr,"struts: Couldn't write %s.\n",outfile_name);
+      exit(1);
+
+    }
+
     printf("struts: %d struts written to %s.\n",n_struts,outfile_name);
-    fclose(outfile_fptr);   
       
   } else {
     printf("struts: %d struts found.\n",n_struts);
-- 
2.43.0


From bdba545bba786d99083f0be57ae128ab486e8191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:00 +0000
Subject: [PATCH 083/110] fix: ropelength -q ends its infinite ropelengths with
 a newline

---
 src/ropelength.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ropelength.c b/src/ropelength.c
index 634aff1..f670e7b 100755
--- a/src/ropelength.c
+++ b/src/ropelength.c
@@ -200,7 +200,7 @@ int main(int argc,char *argv[]) {
     }
     if (thickness == 0) {
       if (q->count > 0) {
-	printf("inf");
+	printf("inf\n");
       } else {	
 	printf("%s:Ropelength: infinity  Thickness: %f\n",
 	       knotfiles->filename[filecnt], thickness);
@@ -225,7 +225,7 @@ int main(int argc,char *argv[]) {
 
       if (thickness > 0 && ropelength < winning_ropelength) {
 
-	strncpy(winning_file,knotfiles->filename[filecnt],sizeof(winning_file));
+	strncpy(winning_file,knotfiles->filename[filecnt],sizeof(winning_file)-1);
 	winning_ropelength = ropelength;
 	winning_thickness = thickness;
 
-- 
2.43.0


From ef2bec98ffc5b958523a6b2e14a26c980291fc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:02 +0000
Subject: [PATCH 084/110] fix: processpdstor, orientedshadows and
 shadow2diagram refuse incomplete pdstor files

---
 tools/orientedshadows.c | 16 +++++++++++++++-
 tools/processpdstor.c   | 17 +++++++++++++++++
 tools/shadow2diagram.c  | 16 +++++++++++++++-
 3 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/tools/orientedshadows.c b/tools/orientedshadows.c
index 7661680..a38ff58 100644
--- a/tools/orientedshadows.c
+++ b/tools/orientedshadows.c
@@ -282,7 +282,12 @@ int main(int argc,char *argv[]) {
       pd_code_t *inpd;
       inpd = pd_read(in);
 
-      assert(inpd != NULL);
+      if (inpd == NULL) {
+
+	printf("fail (couldn't read pd code %d)\n",j);
+	exit(1);
+
+      }
 
       if (!pd_ok(inpd)) {
 
@@ -359,6 +364,15 @@ int main(int argc,char *argv[]) {
 
     }
 
+    if (ferror(in) || j != nelts_claimed) {
+
+      printf("fail (read %d pd codes, expected %d)\n",j,nelts_claimed);
+      exit(1);
+
+    }
+
+    fclose(in);
+
     unsigned int pds_nhashes, pds_nelts;
     pd_stor_stats(newpdstor,&pds_nhashes,&pds_nelts);
     
diff --git a/tools/processpdstor.c b/tools/processpdstor.c
index 226a7f4..f953707 100644
--- a/tools/processpdstor.c
+++ b/tools/processpdstor.c
@@ -365,6 +365,14 @@ int main(int argc,char *argv[]) {
 
       pd_code_t *inpd;
       inpd = pd_read(in);
+
+      if (inpd == NULL) {
+
+	printf("fail (couldn't read pd code %d)\n",j);
+	exit(1);
+
+      }
+
       pd_uid_t inuid = inpd->uid;
       pd_idx_t incross = inpd->ncross;
 
@@ -658,6 +666,15 @@ int main(int argc,char *argv[]) {
       
     }
     
+    if (ferror(in) || j != nelts_claimed) {
+
+      printf("fail (read %d pd codes, expected %d)\n",j,nelts_claimed);
+      exit(1);
+
+    }
+
+    fclose(in);
+
     if (knot_type->count > 0) {
       
       printf("done (wrote %d knot types or homfly polynomials).\n",codes_written);
diff --git a/tools/shadow2diagram.c b/tools/shadow2diagram.c
index dccfcdd..671ec04 100644
--- a/tools/shadow2diagram.c
+++ b/tools/shadow2diagram.c
@@ -302,7 +302,12 @@ int main(int argc,char *argv[]) {
       pd_code_t *inpd;
       inpd = pd_read(in);
 
-      assert(inpd != NULL);
+      if (inpd == NULL) {
+
+	printf("fail (couldn't read pd code %d)\n",j);
+	exit(1);
+
+      }
 
       if (!pd_ok(inpd)) {
 
@@ -512,6 +517,15 @@ int main(int argc,char *argv[]) {
       
     }
     
+    if (ferror(in) || j != nelts_claimed) {
+
+      printf("fail (read %d pd codes, expected %d)\n",j,nelts_claimed);
+      exit(1);
+
+    }
+
+    fclose(in);
+
     printf("done\n");
     
     printf("wrote %d diagram pdcodes/%d diagram-isotopy types.\n",
-- 
2.43.0


From 5a4427bcbf0bba56a153f58514e8a9b443dda2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:02 +0000
Subject: [PATCH 085/110] fix: processpdstor, orientedshadows and
 shadow2diagram report output they cannot write

---
 tools/orientedshadows.c |  8 +++++++-
 tools/processpdstor.c   | 15 ++++++++++++++-
 tools/shadow2diagram.c  | 10 +++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/tools/orientedshadows.c b/tools/orientedshadows.c
index a38ff58..61597f8 100644
--- a/tools/orientedshadows.c
+++ b/tools/orientedshadows.c
@@ -384,7 +384,13 @@ int main(int argc,char *argv[]) {
     printf("done\n");
 
     printf("closing output file %s...",ofname);
-    fclose(out);
+    int write_failed = ferror(out);
+    if (fclose(out) != 0 || write_failed) {
+
+      printf("fail\n");
+      exit(1);
+
+    }
 
     pd_free_pdstor(&newpdstor);
 
diff --git a/tools/processpdstor.c b/tools/processpdstor.c
index f953707..d1d341e 100644
--- a/tools/processpdstor.c
+++ b/tools/processpdstor.c
@@ -691,11 +691,24 @@ int main(int argc,char *argv[]) {
 
     if (outfile->count == 0) {
       printf("closing output file %s...",ofname);
-      fclose(out);
+      int write_failed = ferror(out);
+      if (fclose(out) != 0 || write_failed) {
+	printf("fail\n");
+	exit(1);
+      }
     }
 
   }
 
+  if (outfile->count != 0) {
+    printf("closing output file %s...",ofname);
+    int write_failed = ferror(out);
+    if (fclose(out) != 0 || write_failed) {
+      printf("fail\n");
+      exit(1);
+    }
+  }
+
   if(simplify->count != 0) {
       //Py_Finalize();
   }
diff --git a/tools/shadow2diagram.c b/tools/shadow2diagram.c
index 671ec04..3e35f65 100644
--- a/tools/shadow2diagram.c
+++ b/tools/shadow2diagram.c
@@ -531,8 +531,16 @@ int main(int argc,char *argv[]) {
     printf("wrote %d diagram pdcodes/%d diagram-isotopy types.\n",
 	   codes_added,total_nelts);
 
+    int write_failed = ferror(out); /* (rewinding the stream forgets errors) */
     pd_finish_incremental_pdstor(out,total_nhashes,total_nelts);
-    fclose(out);
+
+    write_failed = ferror(out) || write_failed;
+    if (fclose(out) != 0 || write_failed) {
+
+      printf("fail (couldn't write %s)\n",ofname);
+      exit(1);
+
+    }
 
     free(ofname);
     ofname = NULL;
-- 
2.43.0


From 0ab21edd8484d5c1cb121a70da732a7a4a05393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:02 +0000
Subject: [PATCH 086/110] fix: shadow2diagram opens the output file it names
 itself for writing

---
 tools/shadow2diagram.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/shadow2diagram.c b/tools/shadow2diagram.c
index 3e35f65..76d50e4 100644
--- a/tools/shadow2diagram.c
+++ b/tools/shadow2diagram.c
@@ -244,7 +244,7 @@ int main(int argc,char *argv[]) {
       }	
 	
       printf("opening output file %s...",ofname);
-      out = fopen(ofname,"rw");
+      out = fopen(ofname,"w");
 
       if (out == NULL) {
 
-- 
2.43.0


From 14382802c007b9d3b27de4688466dfc978c78101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:41 +0000
Subject: [PATCH 087/110] fix: shadow2diagram leaves pdstor headers out of
 ccode and KnotTheory output and counts its diagrams

---
 tools/shadow2diagram.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/shadow2diagram.c b/tools/shadow2diagram.c
index 76d50e4..f70725b 100644
--- a/tools/shadow2diagram.c
+++ b/tools/shadow2diagram.c
@@ -293,7 +293,8 @@ int main(int argc,char *argv[]) {
     int j;
     int codes_added = 0;
 
-    pd_start_incremental_pdstor(out);
+    bool write_pdstor = (KnotTheory->count == 0 && ccodes->count == 0);
+    if (write_pdstor) { pd_start_incremental_pdstor(out); }
     unsigned int total_nhashes = 0, total_nelts = 0;
     
     for(j=0;!feof(in);j++) {
@@ -494,6 +495,7 @@ int main(int argc,char *argv[]) {
 	  }
 	
 	  pd_code_free(&popcode);
+	  total_nelts++;
 	
 	}
 
@@ -532,7 +534,7 @@ int main(int argc,char *argv[]) {
 	   codes_added,total_nelts);
 
     int write_failed = ferror(out); /* (rewinding the stream forgets errors) */
-    pd_finish_incremental_pdstor(out,total_nhashes,total_nelts);
+    if (write_pdstor) { pd_finish_incremental_pdstor(out,total_nhashes,total_nelts); }
 
     write_failed = ferror(out) || write_failed;
     if (fclose(out) != 0 || write_failed) {
-- 
2.43.0


From df6ab4e7bec13668f16aa41372ec576ed2b627dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:41 +0000
Subject: [PATCH 088/110] fix: processpdstor --knottypes puts each polynomial
 on a line of its own

---
 tools/processpdstor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/processpdstor.c b/tools/processpdstor.c
index d1d341e..fe8a4dd 100644
--- a/tools/processpdstor.c
+++ b/tools/processpdstor.c
@@ -558,7 +558,7 @@ int main(int argc,char *argv[]) {
 
 		    char *homfly;
 		    homfly = pd_homfly_timeout(working_pd,120);
-		    fprintf(out,"%s",homfly);
+		    fprintf(out,"%s\n",homfly);
 		    free(homfly);
 
 		  }
@@ -634,7 +634,7 @@ int main(int argc,char *argv[]) {
 
 		    char *homfly;
 		    homfly = pd_homfly_timeout(thispd,120);
-		    fprintf(out,"%s",homfly);
+		    fprintf(out,"%s\n",homfly);
 		    free(homfly);
 
 		  }
-- 
2.43.0


From 37dac6ab6ab67ad265c73125352bd02124a0e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:07 +0000
Subject: [PATCH 089/110] fix: orientedshadows processes all of its input files

---
 tools/orientedshadows.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/tools/orientedshadows.c b/tools/orientedshadows.c
index 61597f8..1eaa7c2 100644
--- a/tools/orientedshadows.c
+++ b/tools/orientedshadows.c
@@ -219,6 +219,8 @@ int main(int argc,char *argv[]) {
   /* Otherwise, we're going to have a separate outfile for each infile. */
 
   int i;
+  pd_stor_t *newpdstor = NULL;
+  
   for(i=0;i<infile->count;i++) {
 
     if (outfile->count == 0) { /* We don't have a file open yet. */
@@ -274,7 +276,7 @@ int main(int argc,char *argv[]) {
     printf("expanding and generating new pdstor...\n");
     int j;
     int codes_added = 0;
-    pd_stor_t *newpdstor = pd_new_pdstor();
+    if (newpdstor == NULL) { newpdstor = pd_new_pdstor(); }
     int by_components[10] = {0,0,0,0,0,0,0,0,0,0};
 
     for(j=0;!feof(in);j++) {
@@ -379,29 +381,36 @@ int main(int argc,char *argv[]) {
     printf("done (added %d oriented shadows/%d unique).\n",
 	   codes_added,pds_nelts);
 
-    printf("writing %s...",ofname);
-    pd_write_pdstor(out,newpdstor);
-    printf("done\n");
+    /* A single output file takes the shadows of all the input files. */
 
-    printf("closing output file %s...",ofname);
-    int write_failed = ferror(out);
-    if (fclose(out) != 0 || write_failed) {
+    if (outfile->count == 0 || i == infile->count-1) {
 
-      printf("fail\n");
-      exit(1);
+      printf("writing %s...",ofname);
+      pd_write_pdstor(out,newpdstor);
+      printf("done\n");
 
-    }
+      printf("closing output file %s...",ofname);
+      int write_failed = ferror(out);
+      if (fclose(out) != 0 || write_failed) {
+
+	printf("fail\n");
+	exit(1);
+
+      }
+
+      pd_free_pdstor(&newpdstor);
 
-    pd_free_pdstor(&newpdstor);
+    }
 
     double maxtotal = 0;
     
     printf("\n"
 	   "Report (ISOMORPHISM)          \n"
 	   "--------------------------------\n");
-    for(i=1;i<10;i++) {
-      printf("%5d %2d-component link shadows\n",by_components[i],i);
-      maxtotal += pow(2.0,i)*by_components[i];
+    int k;
+    for(k=1;k<10;k++) {
+      printf("%5d %2d-component link shadows\n",by_components[k],k);
+      maxtotal += pow(2.0,k)*by_components[k];
     }
     printf("-----------------------------------\n\n");
     printf("total number of orientations: %g\n",maxtotal);
-- 
2.43.0


From 55215c15ffb6ae1259d0417fe463f5d414e9ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:07 +0000
Subject: [PATCH 090/110] fix: knottype reports unreadable files in its exit
 status

---
 tools/knottype.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/knottype.c b/tools/knottype.c
index 8239b41..7ce4d15 100755
--- a/tools/knottype.c
+++ b/tools/knottype.c
@@ -48,7 +48,7 @@ gsl_rng *rng; /* The global random number generator */
 
 int main(int argc,char *argv[])
 {
-  int         infilenum,nerrors;
+  int         infilenum,nerrors,unreadable = 0;
 
   void *argtable[] = 
     {
@@ -144,6 +144,7 @@ int main(int argc,char *argv[])
       
       fprintf(stderr,"knottype: Couldn't open file %s.\n",
 	      corefile->filename[infilenum]);
+      unreadable++;
       continue;  /* Try the next file */
       
     }
@@ -159,6 +160,8 @@ int main(int argc,char *argv[])
     if (plr_error_num > 0) {   /* This is the signal for an error. */
       
       fprintf(stderr,"knottype: link reading error\n%s\n",plr_error_str);
+      fclose(infile_fptr);
+      unreadable++;
       continue;  /* Try the next file */
       
     }
@@ -456,7 +459,7 @@ int main(int argc,char *argv[])
 
   if (!QUIET) { printf("done\n"); }
   
-  return 0;
+  return unreadable > 0 ? 1 : 0;
 
 }
 
-- 
2.43.0


From 3699dbd625723fe7fde940a69c486807d4806e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:07 +0000
Subject: [PATCH 091/110] fix: knottype -v tells composite knots from their
 first factor

---
 tools/knottype.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/knottype.c b/tools/knottype.c
index 7ce4d15..066cd71 100755
--- a/tools/knottype.c
+++ b/tools/knottype.c
@@ -372,8 +372,8 @@ int main(int argc,char *argv[])
 	  
 	  for(i=0;i<nposs;i++) {
 	    
-	    if (kt[i].cr[0] == cr && kt[i].ind[0] == ind) { maybe = true; }
-	    if (kt[i].cr[0] != cr || kt[i].ind[0] != ind) { ok = false; }
+	    if (kt[i].nf == 1 && kt[i].cr[0] == cr && kt[i].ind[0] == ind) { maybe = true; }
+	    else { ok = false; }
 	    
 	  }
 	  
-- 
2.43.0


From 013df0d608b775642359486507da8ebe2105122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:26 +0000
Subject: [PATCH 092/110] fix: shadow2diagram flushes its output before
 rewinding forgets errors

---
 tools/shadow2diagram.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/shadow2diagram.c b/tools/shadow2diagram.c
index f70725b..6e9237b 100644
--- a/tools/shadow2diagram.c
+++ b/tools/shadow2diagram.c
@@ -533,7 +533,7 @@ int main(int argc,char *argv[]) {
     printf("wrote %d diagram pdcodes/%d diagram-isotopy types.\n",
 	   codes_added,total_nelts);
 
-    int write_failed = ferror(out); /* (rewinding the stream forgets errors) */
+    int write_failed = (fflush(out) != 0 || ferror(out)); /* (rewinding the stream forgets errors) */
     if (write_pdstor) { pd_finish_incremental_pdstor(out,total_nhashes,total_nelts); }
 
     write_failed = ferror(out) || write_failed;
-- 
2.43.0


From 6833d45fee71f53d0c6e41a5626950485600780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 093/110] fix: nplc_vect_buf_free leaked the buffer itself

---
 src/nvector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nvector.c b/src/nvector.c
index a326ddd..0e08dfb 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -93,6 +93,8 @@ void nplc_vect_buf_free(int bufsize,nplc_vector *buf)
 
   }
 
+  free(buf);
+
 }
 
 int nplc_vect_dim(nplc_vector A,nplc_vector B) 
-- 
2.43.0


From ad33e789434427c11483b91db19d6b93a93fbd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 094/110] fix: nplc_sq_dist returned the dot product

---
 src/nvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector.c b/src/nvector.c
index 0e08dfb..b507752 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -207,7 +207,7 @@ inline double nplc_sq_dist(nplc_vector A, nplc_vector B) {
   int i,n;
   double ret=0;
   n = nplc_vect_dim(A,B);
-  for(i=0;i<n;i++) { ret += A.c[i] * B.c[i]; }
+  for(i=0;i<n;i++) { ret += (A.c[i] - B.c[i]) * (A.c[i] - B.c[i]); }
   return ret;
 }
 
-- 
2.43.0


From 2653a4686929bafff16c4a6f2e8b4414ceceea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 095/110] fix: nplc_vect_print and nplc_vect_clist wrote past
 their buffer for vectors of many dimensions

---
 src/nvector.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nvector.c b/src/nvector.c
index b507752..2fd7ecf 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -395,7 +395,7 @@ char *nplc_vect_print(nplc_vector A)
   
   used += snprintf(&(pbuf[used]),sizeof(pbuf),"(");
   
-  for(i=0;i<A.n;i++) {
+  for(i=0;i<A.n && used < (int)sizeof(pbuf)-32;i++) {
     
     used += snprintf(&(pbuf[used]),sizeof(pbuf)-used,"%g,",A.c[i]);
     
@@ -410,7 +410,8 @@ char *nplc_vect_clist(nplc_vector A)
   static char pbuf[16000];
   int i,used=0;
   
-  for(i=0;i<A.n;i++) {
+  pbuf[0] = '\0';
+  for(i=0;i<A.n && used < (int)sizeof(pbuf)-32;i++) {
     
     used += snprintf(&(pbuf[used]),sizeof(pbuf)-used,"%.16g ",A.c[i]);
     
-- 
2.43.0


From 87040585066432dfd18b49890dcb3bea89d06679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 096/110] fix: nplc_subarc_length leaked a vector for every
 edge

---
 src/nplCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 309087e..f862fc5 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -1752,9 +1752,9 @@ double nplc_subarc_length(const nplCurve * const L, const int cmp,
   length1 = length2 = 0.0;
   for (v = start; v < end; v++) {
     if (v >= v1 && v < v2) {
-      length1 += nplc_norm(nplc_vect_diff(cp->vt[v+1],cp->vt[v]));
+      length1 += nplc_distance(cp->vt[v+1],cp->vt[v]);
     } else {
-      length2 += nplc_norm(nplc_vect_diff(cp->vt[v+1],cp->vt[v]));
+      length2 += nplc_distance(cp->vt[v+1],cp->vt[v]);
     }
   }
 
-- 
2.43.0


From 5b42702c71db8cabc860f8acc7d20b0ca4d068ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 097/110] fix: nplc_component left the wrap-around vertices of
 the new curve at zero

---
 src/nplCurve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index f862fc5..04664d3 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -422,6 +422,8 @@ nplCurve *nplc_component(int cp,nplCurve *L)
     Lcp->cp[0].clr[i] = L->cp[cp].clr[i];
 
   }
+
+  nplc_fix_wrap(Lcp);
   
   return Lcp;
 
-- 
2.43.0


From c1f653de6f3e19292c58717bfccfbf88d3c99b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 098/110] fix: nplc_write cut vertex lines off after 79
 characters

---
 src/nplCurve.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 04664d3..0300626 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -763,11 +763,9 @@ void nplc_remove_all_constraints(nplCurve * const L) {
  */
 
 void nplc_write(FILE *outfile, nplCurve * const L) {
-  int i,j;                  /* Counters for the for loops */
+  int i,j,k;                /* Counters for the for loops */
   int nverts = 0;           /* Total number of vertices of all components */
   int colors = 0;           /* Total number of colors of all components */
-  char outstr[80] = "";     /* So we can wrap the vertex lines */
-  char outstr2[80] = "";    /* Again for wrapping */
   int cst_num;              /* This constraint */
   int **cst_nums = NULL;    /* All constraint numbers */
   nplc_constraint *cst;  /* Current constraint */
@@ -865,17 +863,15 @@ void nplc_write(FILE *outfile, nplCurve * const L) {
   for (i=0; i<L->nc; i++) {
     fprintf(outfile,"# Component %d\n",i);
     for (j=0; j<L->cp[i].nv; j++) {
-      (void)snprintf(outstr,sizeof(outstr),"%s",
-          nplc_vect_clist(L->cp[i].vt[j]));
+      for (k=0; k < L->cp[i].vt[j].n; k++) {
+        fprintf(outfile,"%.16g ",L->cp[i].vt[j].c[k]);
+      }
       if (cst_nums[i][j] != 0) {
-        strcpy(outstr2,outstr);
-        (void)snprintf(outstr,sizeof(outstr),
-                       "%s # Cst: %d",outstr2,cst_nums[i][j]);
+        fprintf(outfile,"# Cst: %d",cst_nums[i][j]);
       }
       /* Here is where we will eventually write out the quantifiers, wrapping
        * as necessary */
-      /* Now complete the string. */
-      fprintf(outfile,"%s\n",outstr);
+      fprintf(outfile,"\n");
     }
   }
 
-- 
2.43.0


From 1bbd448cde012102ce61fd608484a655a554d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:40 +0000
Subject: [PATCH 099/110] fix: nplc_read accepted files without the VECT
 keyword and needed a stream that can be rewound

---
 src/nplCurve.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 0300626..c29b365 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -1158,6 +1158,8 @@ void nplc_fix_wrap(nplCurve * const L) {
   nplc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
   int cst_num, prev_cst_num, prev_cst_vert;
+  char keyword[32] = "";
+  int parsed_kw = 0;
 
   assert(file != NULL);
   assert(error_str_len > 0);
@@ -1165,18 +1167,17 @@ void nplc_fix_wrap(nplCurve * const L) {
   *error_num = 0;
 
   /* First, we check for the '(N)VECT' keyword. */
-  if (fscanf(file,"%dVECT ",&dim) != 1) {
+  if (fscanf(file," %31s",keyword) == 1 && strcmp(keyword,"VECT") == 0) {
 
-    fseek(file,0,SEEK_SET); /* Rewind and try again- this might be an ordinary VECT file.*/
+    dim = 3; /* This is an ordinary VECT file. */
 
-    if (fscanf(file," VECT ") == EOF) {
-      *error_num = NPLC_E_NO_VECT;
-      (void)snprintf(error_str,error_str_len,
-		     "nplc_read: Couldn't find (N)VECT keyword.\n");
-      return NULL;
-    }
+  } else if (sscanf(keyword,"%d%n",&dim,&parsed_kw) != 1 || dim < 1 ||
+	     strcmp(&(keyword[parsed_kw]),"VECT") != 0) {
 
-    dim = 3;
+    *error_num = NPLC_E_NO_VECT;
+    (void)snprintf(error_str,error_str_len,
+		   "nplc_read: Couldn't find (N)VECT keyword.\n");
+    return NULL;
 
   }
 
-- 
2.43.0


From d84337197a12dde779f3efc37cb8bc7479c41395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:40 +0000
Subject: [PATCH 100/110] fix: nplc_read aborted or crashed on files with
 impossible vertex or color counts

---
 src/nplCurve.c | 20 ++++++++++++++++++++
 src/nvector.c  |  1 +
 2 files changed, 21 insertions(+)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index c29b365..f9469ee 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -38,6 +38,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <stdarg.h>
 #include <ctype.h>
 #include <string.h>
+#include <limits.h>
 #include <assert.h>
 
 #ifdef HAVE_FLOAT_H
@@ -1222,6 +1223,16 @@ void nplc_fix_wrap(nplCurve * const L) {
     }
     /* A negative number of vertices indicates a CLOSED component. */
     open[i] = (nvarray[i] >= 0);
+    if (nvarray[i] == 0 ||
+        nvarray[i] > INT_MAX-2 || nvarray[i] < -(INT_MAX-2)) {
+      *error_num = NPLC_E_BAD_CVRT_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "nplc_read: Component %d can't have %d vertices.\n",i,nvarray[i]);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
     nvarray[i] = abs(nvarray[i]);
   }
   /*@=loopexec@*/
@@ -1239,6 +1250,15 @@ void nplc_fix_wrap(nplCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (ccarray[i] < 0) {
+      *error_num = NPLC_E_BAD_CLR_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "nplc_read: Component %d can't have %d colors.\n",i,ccarray[i]);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
   }
   /*@=loopexec@*/
 
diff --git a/src/nvector.c b/src/nvector.c
index 2fd7ecf..e80de05 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -75,6 +75,7 @@ nplc_vector *nplc_vect_buf_new(int dim,int num_vects)
   int i;
 
   retbuf = calloc(num_vects,sizeof(nplc_vector));
+  assert(retbuf != NULL);
   for (i=0;i<num_vects;i++) {
     
     retbuf[i] = nplc_vect_new(dim);
-- 
2.43.0


From f2cd19f9de20651ba25694651e46821741fc204b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:40 +0000
Subject: [PATCH 101/110] fix: nplc_read refuses a curve whose last number was
 cut short by a read error

---
 src/nplCurve.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index f9469ee..09b9627 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -1480,6 +1480,17 @@ void nplc_fix_wrap(nplCurve * const L) {
     }
   }
 
+  /* A number cut short by a read error looks like a (different) number. */
+  if (ferror(file) != 0) {
+    nplc_free(L);
+    assert(cst_list->next == NULL);
+    free(cst_list);
+    *error_num = NPLC_E_BAD_VERT_LINE;
+    (void)snprintf(error_str,error_str_len,
+      "nplc_read: Read error in the data of the nplCurve.\n");
+    return NULL;
+  }
+
   assert(cst_list->next == NULL);
   free(cst_list);
   return L;
-- 
2.43.0


From 8657e6788abc389fd7ed1660a10b79c29fb678f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:22 +0000
Subject: [PATCH 102/110] fix: a Judy deletion short of memory for the root
 leaf corrupted the array

---
 judy/src/JudyCommon/JudyDel.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/judy/src/JudyCommon/JudyDel.c b/judy/src/JudyCommon/JudyDel.c
index ced4b5f..118503b 100644
--- a/judy/src/JudyCommon/JudyDel.c
+++ b/judy/src/JudyCommon/JudyDel.c
@@ -1970,8 +1970,21 @@ JUDYLCODE(PPvoid_t PPvalue;)  // pointer from JudyLGet().
 // TBD:  Should we add a topdigit field to JPMs so they can hold narrow
 // pointers?
 
+// If the population becomes small enough for a LEAFW, get its memory first, as
+// the deletion cannot be taken back if there is none.
+
+            Pjlwnew = (Pjlw_t) NULL;
+
+            if (Pjpm->jpm_Pop0 == cJU_LEAFW_MAXPOP1)
+            {
+                Pjlwnew = j__udyAllocJLW(cJU_LEAFW_MAXPOP1);
+                JU_CHECKALLOC(Pjlw_t, Pjlwnew, JERRI);
+            }
+
             if (j__udyDelWalk(Pjp, Index, cJU_ROOTSTATE, Pjpm) == -1)
             {
+                if (Pjlwnew != (Pjlw_t) NULL)
+                    j__udyFreeJLW(Pjlwnew, cJU_LEAFW_MAXPOP1, (Pjpm_t) NULL);
                 JU_COPY_ERRNO(PJError, Pjpm);
                 return(JERRI);
             }
@@ -1986,9 +1999,6 @@ JUDYLCODE(PPvoid_t PPvalue;)  // pointer from JudyLGet().
 
 // COMPRESS A BRANCH[LBU] TO A LEAFW:
 //
-            Pjlwnew = j__udyAllocJLW(cJU_LEAFW_MAXPOP1);
-            JU_CHECKALLOC(Pjlw_t, Pjlwnew, JERRI);
-
 // Plug leaf into root pointer and set population count:
 
 ////        *PPArray  = (Pvoid_t) ((Word_t) Pjlwnew | cJU_LEAFW);
-- 
2.43.0


From 3b45d5deda96e91d5369b0fbd94bbf3232de3888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:22 +0000
Subject: [PATCH 103/110] fix: Judy arrays built from a list of the largest
 leaf size read past a table

---
 judy/src/JudyCommon/JudyInsArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/judy/src/JudyCommon/JudyInsArray.c b/judy/src/JudyCommon/JudyInsArray.c
index f8e361f..dc371fb 100644
--- a/judy/src/JudyCommon/JudyInsArray.c
+++ b/judy/src/JudyCommon/JudyInsArray.c
@@ -281,7 +281,7 @@ const   Word_t *  const PValue, // list of corresponding values.
         if (Count == 0) return(1);              // *PPArray remains null.
 
         {
-            Pjlw      = j__udyAllocJLW(Count + 1);
+            Pjlw      = j__udyAllocJLW(Count);
                         JU_CHECKALLOC(Pjlw_t, Pjlw, JERRI);
             *PPArray  = (Pvoid_t) Pjlw;
             Pjlw[0]   = Count - 1;              // set pop0.
-- 
2.43.0


From 230cfed11938fd226680ee7f4cc7355855491b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:17 +0000
Subject: [PATCH 104/110] fix: a Judy insertion short of memory while growing
 out of the root leaf corrupted the array

---
 judy/src/JudyCommon/JudyIns.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/judy/src/JudyCommon/JudyIns.c b/judy/src/JudyCommon/JudyIns.c
index f96df41..d031571 100644
--- a/judy/src/JudyCommon/JudyIns.c
+++ b/judy/src/JudyCommon/JudyIns.c
@@ -1829,12 +1829,31 @@ FUNCTION PPvoid_t JudyLIns
                 JUDYLCODE(return(PPJERR);)
             }
 
+// A population of cJU_LEAFW_MAXPOP1 says LEAFW, so only replace the leaf by the
+// tree when the new index is in it; if there is no memory for that, keep the
+// leaf:
+
+            if (j__udyInsWalk(&(Pjpm->jpm_JP), Index, Pjpm) == -1)
+            {
+                JU_COPY_ERRNO(PJError, Pjpm);
+                j__udyFreeSM(&(Pjpm->jpm_JP), Pjpm);
+                j__udyFreeJPM(Pjpm, (Pjpm_t) NULL);
+                JUDY1CODE(return(JERRI );)
+                JUDYLCODE(return(PPJERR);)
+            }
+
+            ++(Pjpm->jpm_Pop0);
+
 // Note:  No need to pass Pjpm for memory decrement; LEAFW memory is never
 // counted in a JPM at all:
 
             j__udyFreeJLW(Pjlw, cJU_LEAFW_MAXPOP1, NULL);
             *PPArray = (Pvoid_t) Pjpm;
 
+            DBGCODE(JudyCheckPop(*PPArray);)
+            JUDY1CODE(return(1);)
+            JUDYLCODE(return((PPvoid_t) Pjpm->jpm_PValue);)
+
         } // JU_LEAFW
 
 // ****************************************************************************
-- 
2.43.0


From a79f01723069e256f619401d6a3473fbe4935184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 105/110] fix: plc_convert_from_spline read past the colors of
 closed components

---
 src/splines.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/splines.c b/src/splines.c
index 251f6e7..d08383d 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -598,13 +598,15 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 
       L->cp[comp].vt[i] = evaluate_poly(spL,comp,shi,slo,s,&a,&b);
 
-      /* And interpolate the colors */
+      /* And interpolate the colors (the last sample of a closed component
+         is followed by the first one) */
       if (do_colors) {
+        int chi = (shi < spL->cp[comp].cc) ? shi : 0;
         L->cp[comp].clr[i] = plc_build_color(
-            a*spL->cp[comp].clr[slo].r     + b*spL->cp[comp].clr[shi].r,
-            a*spL->cp[comp].clr[slo].g     + b*spL->cp[comp].clr[shi].g,
-            a*spL->cp[comp].clr[slo].b     + b*spL->cp[comp].clr[shi].b,
-            a*spL->cp[comp].clr[slo].alpha + b*spL->cp[comp].clr[shi].alpha);
+            a*spL->cp[comp].clr[slo].r     + b*spL->cp[comp].clr[chi].r,
+            a*spL->cp[comp].clr[slo].g     + b*spL->cp[comp].clr[chi].g,
+            a*spL->cp[comp].clr[slo].b     + b*spL->cp[comp].clr[chi].b,
+            a*spL->cp[comp].clr[slo].alpha + b*spL->cp[comp].clr[chi].alpha);
       }
     }
 
-- 
2.43.0


From 592bd5d87e0b6a77b3048ec62536e099c844151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 106/110] fix: plc_convert_from_spline asserted when rounding
 took the last sample past the end of an open component

---
 src/splines.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/splines.c b/src/splines.c
index d08383d..19ca677 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -584,6 +584,10 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 
       s = s_max*i/L->cp[comp].nv;
 
+      if (spL->cp[comp].open && s > spL->cp[comp].svals[spL->cp[comp].ns-1]) {
+        s = spL->cp[comp].svals[spL->cp[comp].ns-1]; /* Rounding took us past the end */
+      }
+
       /* Search to make sure that slo and shi bracket our current s.*/
 
       while (spL->cp[comp].svals[shi] <= s && 
-- 
2.43.0


From c3ece22bceb655b6dbcf974bfa9177db52de201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 107/110] fix: plc_convert_from_spline made constraints on
 vertices past the end of a component

---
 src/splines.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/splines.c b/src/splines.c
index 19ca677..2219740 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -654,6 +654,12 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 	} else { /* Scale the length from the old resolution */
 
 	  cst->num_verts = ceil(((cst_shi-cst_slo)/s_max)*L->cp[comp].nv);
+
+	  if (cst->vert + cst->num_verts > L->cp[comp].nv) { /* Don't run off the end */
+
+	    cst->num_verts = L->cp[comp].nv - cst->vert;
+
+	  }
 	  
 	}	
 	
-- 
2.43.0


From 1e2609409f7be138d432623fb15d2181d5e181af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 108/110] fix: adding or dropping a component left a symmetry
 group of the old components, whose release overran or leaked memory

---
 src/plCurve.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index e7ddd34..64bface 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2097,6 +2097,8 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
   assert(add_as >= 0);
   assert(add_as <= L->nc);
 
+  plc_symmetry_group_free(&(L->G)); /* A new component destroys symmetry */
+
   L->nc++;
   /*@-compdestroy@*/
   L->cp = realloc(L->cp,L->nc*sizeof(plc_strand));
@@ -2143,6 +2145,8 @@ void plc_drop_component(plCurve *L, const int cmp) {
   assert(cmp < L->nc);
   assert(L->nc > 0);
 
+  plc_symmetry_group_free(&(L->G)); /* Losing a component destroys symmetry */
+
   L->nc--;
   L->cp[cmp].vt--;
   free(L->cp[cmp].vt);
-- 
2.43.0


From 23923c7443be60678a55f245e0333d883f96a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 109/110] fix: plc_coordplanes_reflection_group returned groups
 with missing elements

---
 src/symmetries.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.c b/src/symmetries.c
index ccd9d2d..45189dd 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -440,7 +440,7 @@ plc_symmetry_group *plc_coordplanes_reflection_group(plCurve *L)
   /* We need to scan and make sure the builds succeeded. */
 
   int i;
-  for(i=0;i<2;i++) {
+  for(i=0;i<4;i++) {
 
     if (build->sym[i] == NULL) {
 
-- 
2.43.0


From 43e16da0d8aca5d0aa8cc249fd04ee3fa9f683ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:21 +0000
Subject: [PATCH 110/110] fix: pd_map_isomorphic crashed on diagrams without
 crossings

There is no crossmap for such diagrams; pdint_build_map_isomorphisms read
its orientation all the same.
---
 src/pd_isomorphisms.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 6d3fbae..91108d8 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2858,7 +2858,10 @@ pd_iso_t **pdint_build_map_isomorphisms(pd_code_t *pdA,pd_code_t *pdB,
 
       for(map=0;map<nmaps && !abortflag;map++) { /* We have actually generated an isomorphism! */
 
-          if(crossmaps[map]->orient == PD_POS_ORIENTATION) { // We have a *map* isomorphism (oriented S2)
+          // If there are no crossings, there is no crossmap, and so no crossmap orientation.
+          pd_or_t orient = (pdA->ncross > 0) ? crossmaps[map]->orient : facemaps[map]->orient;
+
+          if(orient == PD_POS_ORIENTATION) { // We have a *map* isomorphism (oriented S2)
 
               pd_iso_t *new_iso;
               new_iso = calloc(1,sizeof(pd_iso_t)); assert(new_iso != NULL);
-- 
2.43.0

