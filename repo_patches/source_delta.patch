From 7925c3a695b8b4ead6f1c54b6b7b0ab54e988dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 01/23] fix: C initializer octal escapes take at most three
 digits

"\1" followed by the character '1' was saved as "\0011" and read back as
one character.
---
 src/cinit_load.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index ce9636c..fcd7226 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -54,7 +54,7 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 	  int size;
 	  if (c > 0)
 	    dst[length++] = c;
-	  else if (1 == sscanf (&substr->str[i], "%o%n", &c, &size))
+	  else if (1 == sscanf (&substr->str[i], "%3o%n", &c, &size))
 	    {
 	      i += size - 1;
 	      dst[length++] = c;
-- 
2.43.0


From 91f5bc1d7c23119a3f20fb8998b50d5d1f7530be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:34 +0000
Subject: [PATCH 02/23] fix: fields named like a keyword load from C
 initializer and Scheme

A field named i (imaginary unit), inf, nan, t or nil was taken for the
keyword, so what had been saved could not be loaded.
---
 src/cinit_load.l |  9 +++++++++
 src/cinit_load.y | 13 +++++++++----
 src/scm_load.l   |  6 ++++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/cinit_load.l b/src/cinit_load.l
index 22a5858..14f1d9a 100644
--- a/src/cinit_load.l
+++ b/src/cinit_load.l
@@ -79,6 +79,15 @@ IMAGENARY_NUMBER {INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?[Ii]
   return (TOK_CINIT_ID);
 }
 
+"."{WS}{ID} { /* field name may coincide with a keyword */
+  char * name = &yytext[1];
+  while (isspace (*name))
+    ++name;
+  yylval->string.str = name;
+  yylval->string.length = strlen (name);
+  return (TOK_CINIT_FIELD_PREFIX);
+}
+
 "\""([^\"\\]|\\.)*"\"" {
   yylval->string.str = &yytext[1];
   yylval->string.length = strlen (yytext) - 2 * sizeof (yytext[0]);
diff --git a/src/cinit_load.y b/src/cinit_load.y
index fcd7226..c1011c6 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -98,6 +98,7 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 %left TOK_CINIT_MUL TOK_CINIT_DIV TOK_CINIT_MOD
 %precedence NEG 
 %type <value> expr
+%type <string> field_name
 
 %start cinit
 
@@ -247,7 +248,7 @@ compaund: TOK_CINIT_LBRACE list TOK_CINIT_RBRACE
 list: | list_element | list_element TOK_CINIT_COMMA list
 
 list_element: cinit
-| TOK_CINIT_DOT TOK_CINIT_ID TOK_CINIT_ASSIGN cinit {
+| field_name TOK_CINIT_ASSIGN cinit {
   mr_load_t * mr_load = MR_LOAD;
   mr_idx_t idx = mr_last_child_for_parent (mr_load->ptrs, mr_load->parent);
   if (MR_NULL_IDX == idx)
@@ -257,15 +258,19 @@ list_element: cinit
     }
 
   mr_td_t * tdp = mr_load->ptrs->ra[idx].fdp ? mr_load->ptrs->ra[idx].fdp->stype.tdp : NULL;
-  $2.str[$2.length] = 0;
-  mr_load->ptrs->ra[idx].fdp = mr_get_any_fd_by_name ($2.str, tdp);
+  $1.str[$1.length] = 0;
+  mr_load->ptrs->ra[idx].fdp = mr_get_any_fd_by_name ($1.str, tdp);
   if (NULL == mr_load->ptrs->ra[idx].fdp)
     {
-      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNKNOWN_FIELD_NAME, $2.str);
+      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNKNOWN_FIELD_NAME, $1.str);
       YYERROR;
     }
 }
 
+field_name:
+TOK_CINIT_FIELD_PREFIX
+| TOK_CINIT_DOT TOK_CINIT_ID { $$ = $2; }
+
 %%
 
 MR_LOAD_FUNC (cinit);
diff --git a/src/scm_load.l b/src/scm_load.l
index 04ec4cd..1f59a69 100644
--- a/src/scm_load.l
+++ b/src/scm_load.l
@@ -105,6 +105,12 @@ FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{IN
   return (TOK_SCM_ID);
 }
 
+{ID}/" . " { /* field name may coincide with a keyword */
+  yylval->string.str = yytext;
+  yylval->string.length = strlen (yytext);
+  return (TOK_SCM_ID);
+}
+
 {WS}+"."{WS}+         { return (TOK_SCM_DOT); }
 
 .             { return (TOK_SCM_ERROR); }
-- 
2.43.0


From cb2da7df4cb518c2b737ecd67b6554948c30b9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 03/23] fix: multi-dimensional arrays keep their dimensions
 when saved

Every element but the first of int a[2][3] was walked with the outer
dimension, so elements were lost or read out of bounds.
---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index cc0d974..c2f6190 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1216,7 +1216,7 @@ mr_save_array (mr_save_data_t * mr_save_data)
   else
     {
       fd_.stype.dim.size -= sizeof (fd_.stype.dim.dim[0]);
-      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[0], fd_.stype.dim.size);
+      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[1], fd_.stype.dim.size);
     }
 
   for (i = 0; i < count; )
-- 
2.43.0


From cc990c038d7792239b3ff80ad022a9bb63769b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:20 +0000
Subject: [PATCH 04/23] fix: deep copy of an empty resizable array does not
 share the buffer

---
 src/mr_extra.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index a1b5256..4105d5b 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -172,6 +172,9 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
 	  /* update pointer in the copy */
 	  if (ptrs->ra[i].first_child != MR_NULL_IDX)
 	    *(void**)ptrs->ra[i].res.data.ptr = ptrs->ra[ptrs->ra[i].first_child].res.data.ptr;
+	  else if ((ptrs->ra[i].flags & MR_IS_NULL) &&
+		   (MR_TYPE_VOID != ptrs->ra[i].mr_type_aux) && (MR_TYPE_NONE != ptrs->ra[i].mr_type_aux))
+	    *(void**)ptrs->ra[i].res.data.ptr = NULL; /* empty resizable array doesn't share buffer with the source */
 	  break;
 
 	default:
-- 
2.43.0


From ffd45ef8694c8e1ca3315cd237b460fecb47cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:51 +0000
Subject: [PATCH 05/23] fix: wide union discriminators are not truncated to int

---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index c2f6190..cfad73e 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -12,7 +12,7 @@ TYPEDEF_FUNC (mr_idx_t, mr_save_handler_t, (mr_save_data_t *))
 static mr_save_handler_t mr_save_handler[];
 
 static inline mr_fd_t *
-mr_union_discriminator_by_idx (mr_td_t * tdp, int idx)
+mr_union_discriminator_by_idx (mr_td_t * tdp, mr_intmax_t idx)
 {
   /* check that field index in union is valid and reset to default otherwise */
   if ((idx < 0) || (idx >= tdp->param.union_param.fields_size / sizeof (tdp->param.union_param.fields[0])))
-- 
2.43.0


From 010660b4c87149ff754910e0cc5d6d7cb852c7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 06/23] fix: items count of an empty tree collection

---
 src/mr_ic.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 4478663..7901d7a 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -846,11 +846,19 @@ mr_ic_static_array_new (mr_ic_t * ic, mr_hash_fn_t hash_fn, mr_compar_fn_t compa
 
 /* ----------------------- MR_IC_RBTREE ----------------------- */
 
+static inline unsigned
+mr_ic_tree_items_count (mr_tree_t * tree)
+{
+  /* the first element of the pool is a service one, the pool is not allocated until the first element is added */
+  unsigned count = tree->size / sizeof (tree->pool[0]);
+  return (count ? count - 1 : 0);
+}
+
 mr_ptr_t *
 mr_ic_rbtree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_rbtree_add (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->rb);
   return (add);
 }
 
@@ -858,7 +866,7 @@ mr_status_t
 mr_ic_rbtree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_rbtree_del (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->rb);
   return (status);
 }
 
@@ -902,6 +910,7 @@ mr_ic_tree_index (mr_ic_t * ic, mr_ptr_t * rarray, size_t size)
   /* Add elements into the tree in the natuaral order. In case of equal elements only first will be added. */
   int i, count = size / sizeof (rarray[0]);
   mr_tree_reserve (&ic->tree, count, true);
+  ic->items_count = mr_ic_tree_items_count (&ic->tree);
   for (i = 0; i < count; ++i)
     if (NULL == mr_ic_add (ic, rarray[i]))
       return (MR_FAILURE);
@@ -964,7 +973,7 @@ mr_ptr_t *
 mr_ic_avltree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_avltree_add (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->avl);
   return (add);
 }
 
@@ -972,7 +981,7 @@ mr_status_t
 mr_ic_avltree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_avltree_del (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->avl);
   return (status);
 }
 
-- 
2.43.0


From ec3339f485b269ab06da48f2cbb0a26c8011ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:35 +0000
Subject: [PATCH 07/23] fix: items count of hash collections with a zero key or
 a failed growth

---
 src/mr_ic.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 7901d7a..7ba03fa 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -454,7 +454,8 @@ mr_ic_hash_index_add (mr_ic_t * ic, mr_ptr_t key)
       
       if (0 == key.intptr)
 	{
-	  ++ic->items_count;
+	  if (!ic->hash.zero_key)
+	    ++ic->items_count;
 	  ic->hash.zero_key = true;
 	  ic->hash.hash_table[count].intptr = 0;
 	  return (&ic->hash.hash_table[count]);
@@ -551,7 +552,10 @@ mr_ic_hash_add (mr_ic_t * ic, mr_ptr_t key)
 	return (NULL);
       ++ic->items_count;
       if (MR_SUCCESS != mr_ic_hash_reindex (&dst_ic, ic))
-	return (NULL);
+	{
+	  --ic->items_count;
+	  return (NULL);
+	}
 
       mr_ic_free (ic);
       *ic = dst_ic;
-- 
2.43.0


From 3384aa46f5903dc043e4be61c3f3ced5483f0274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 08/23] fix: negative bit-field union discriminators are sign
 extended

---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index cfad73e..c354cec 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -100,7 +100,7 @@ mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * disc
 	case MR_TYPE_BITFIELD:
 	  {
 	    mr_uintmax_t value = 0;
-	    mr_ptrdes_t ptrdes = { .data.ptr = discriminator, .fdp = parent_fdp, };
+	    mr_ptrdes_t ptrdes = { .data.ptr = discriminator, .fdp = parent_fdp, .mr_type_aux = parent_fdp->stype.mr_type_aux, };
 	    mr_td_t * enum_tdp = parent_fdp->stype.tdp;
 
 	    mr_save_bitfield_value (&ptrdes, &value); /* get value of the bitfield */
-- 
2.43.0


From aa2e4c62d89fa636fa582ee94e6d818698869252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:52 +0000
Subject: [PATCH 09/23] fix: allocation failure while resolving a union fails
 the save

---
 src/mr_protos.h |  1 +
 src/mr_save.c   | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/mr_protos.h b/src/mr_protos.h
index ea006ca..1072fee 100644
--- a/src/mr_protos.h
+++ b/src/mr_protos.h
@@ -628,6 +628,7 @@ TYPEDEF_STRUCT (mr_save_data_t, ATTRIBUTES ( , "save routines data and lookup st
 		(mr_union_discriminator_t *, mr_ra_ud, , "allocation of union discriminators",
 		{ .offset = offsetof (mr_save_data_t, mr_ra_ud_size) }, "offset"),
 		VOID (ssize_t, mr_ra_ud_alloc_size, , "allocated size of 'mr_ra_ud'"),
+		(bool, failed, , "failed to resolve some of the nodes"),
 		)
 
 TYPEDEF_FUNC (int, mr_ra_printf_t, (mr_rarray_t *, mr_ptrdes_t *))
diff --git a/src/mr_save.c b/src/mr_save.c
index c354cec..db7e25b 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -372,7 +372,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
 				   sizeof (mr_save_data->mr_ra_ud[0]));
   /* create a record for further lookups in parent nodes for discriminator value */
   if (NULL == ud)
-    return (NULL);
+    {
+      mr_save_data->failed = true;
+      return (NULL);
+    }
 
   memset (ud, 0, sizeof (*ud));
   /* this record is only for lookups and there is no guarantee that parents already have union resolution info */
@@ -381,6 +384,7 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
   if ((ud_idx >> __CHAR_BIT__) >= (1UL << (__CHAR_BIT__ * (sizeof (MR_RA_UD_IDX_TYPE) - 1))))
     {
       MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_TOO_MANY_UD, MR_STRINGIFY_READONLY (MR_RA_UD_IDX_TYPE));
+      mr_save_data->failed = true;
       return (NULL);
     }
   ud->union_fdp = union_fdp; /* union field descriptor */
@@ -427,7 +431,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
       ud->discriminated_fdp = fdp;
       mr_ptr_t * add = mr_ic_add (&mr_save_data->union_discriminators, ud_idx);
       if (NULL == add)
-	return (NULL);
+	{
+	  mr_save_data->failed = true;
+	  return (NULL);
+	}
       if (add->uintptr == ud_idx)
 	/* union discriminator info was not found in the set so we add new record */
 	mr_save_data->mr_ra_ud_size += sizeof (mr_save_data->mr_ra_ud[0]);
@@ -441,7 +448,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
   /* add union discriminator information to all parents which doesn't have it yet */
   for (idx = node; idx != parent; idx = mr_save_data->ptrs.ra[idx].parent)
     if (-1 == mr_ud_add (&mr_save_data->ptrs.ra[idx].save_params.ud_set, ud_find, mr_save_data))
-      return (NULL);
+      {
+	mr_save_data->failed = true;
+	return (NULL);
+      }
 
   return (fdp);
 }
@@ -1487,7 +1497,8 @@ mr_post_process (mr_save_data_t * mr_save_data)
 {
   mr_idx_t i, count = mr_save_data->ptrs.size / sizeof (mr_save_data->ptrs.ra[0]);
   for (i = 1; i < count; ++i)
-    resolve_void_ptr_and_strings (mr_save_data, i);
+    if (MR_SUCCESS != resolve_void_ptr_and_strings (mr_save_data, i))
+      mr_save_data->failed = true;
   i = 1;
   mr_ptrs_dfs (&mr_save_data->ptrs, mr_renumber_node, &i); /* enumeration of nodes should be done only after strings processing */
 }
@@ -1593,6 +1604,9 @@ mr_save (void * data, mr_fd_t * fdp)
 	mr_post_process (&mr_save_data);
     }
 
+  if (mr_save_data.failed)
+    nodes_added = 0;
+
   for (i = mr_save_data.ptrs.size / sizeof (mr_save_data.ptrs.ra[0]) - 1; i > 0; --i)
     mr_ud_free (&mr_save_data.ptrs.ra[i].save_params.ud_set);
 
-- 
2.43.0


From 39888edd48d38a1b7ebeb98fd6a496e808e4add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:52 +0000
Subject: [PATCH 10/23] fix: failed deep copy releases only what it allocated

---
 src/mr_extra.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 4105d5b..0ed63c4 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -185,7 +185,9 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
 
  failure:
   for (i = 2; i < count; ++i)
-    if ((MR_TYPE_STRING == ptrs->ra[i].mr_type) && (ptrs->ra[i].res.type != NULL))
+    if ((ptrs->ra[i].idx == MR_NULL_IDX) || (ptrs->ra[i].flags & (MR_IS_NULL | MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)))
+      continue; /* these nodes own nothing */
+    else if ((MR_TYPE_STRING == ptrs->ra[i].mr_type) && (ptrs->ra[i].res.type != NULL))
       MR_FREE (ptrs->ra[i].res.type);
     else if ((MR_TYPE_POINTER == ptrs->ra[i].mr_type) &&
 	     (ptrs->ra[i].first_child != MR_NULL_IDX))
-- 
2.43.0


From e010a13235f922fb5e79012579e33d4791d65cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:52 +0000
Subject: [PATCH 11/23] fix: failed XML2 or XDR save does not return a partial
 image

---
 src/metaresc.h |  8 +++++++-
 src/xml_save.c | 12 +++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/metaresc.h b/src/metaresc.h
index 8a667b8..d16357f 100644
--- a/src/metaresc.h
+++ b/src/metaresc.h
@@ -1098,7 +1098,13 @@
       mr_rarray_t _ra_ = { .alloc_size = 0, .MR_SIZE = 0, .data = { NULL }, .type = "uint8_t" }; \
       mr_xdrra_create (&_xdrs_, &_ra_, XDR_ENCODE);			\
       if (MR_SUCCESS != MR_SAVE_XDR (&_xdrs_, __VA_ARGS__))		\
-	MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_XDR_SAVE_FAILED);		\
+	{								\
+	  MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_XDR_SAVE_FAILED);		\
+	  if (_ra_.data.ptr)						\
+	    MR_FREE (_ra_.data.ptr);					\
+	  _ra_.data.ptr = NULL;						\
+	  _ra_.MR_SIZE = _ra_.alloc_size = 0;				\
+	}								\
       _ra_;								\
     })
 
diff --git a/src/xml_save.c b/src/xml_save.c
index 0018660..f63b129 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -472,11 +472,21 @@ mr_xml2_save (mr_ra_ptrdes_t * ptrs)
       ptrs->res.data.ptr = doc;
       ptrs->res.type = NULL;
 
-      mr_ptrs_dfs (ptrs, xml2_save_node, &mr_ra_str);
+      if (ptrs->size >= 2 * sizeof (ptrs->ra[0]))
+	ptrs->ra[1].res.data.ptr = NULL;
+
+      mr_status_t status = mr_ptrs_dfs (ptrs, xml2_save_node, &mr_ra_str);
       
       if (ptrs->size >= 2 * sizeof (ptrs->ra[0]))
 	if (NULL != ptrs->ra[1].res.data.ptr)
 	  xmlDocSetRootElement (doc, ptrs->ra[1].res.data.ptr);
+
+      if (MR_SUCCESS != status)
+	{
+	  MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_XML_SAVE_FAILED);
+	  xmlFreeDoc (doc);
+	  doc = NULL;
+	}
     }
 
   if (mr_ra_str.data.ptr)
-- 
2.43.0


From 1edb5f724e9e7ae57a54eb392aadc6192dcc2aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:58 +0000
Subject: [PATCH 12/23] fix: failed XDR load releases what it has loaded

---
 src/xdr.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/xdr.c b/src/xdr.c
index 389875d..8bab431 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -333,10 +333,21 @@ mr_xdr_load (void * data, mr_fd_t * fdp, XDR * xdrs)
     return (MR_FAILURE);
 
   mr_status_t status = xdr_load_inner (data, fdp, xdrs, &ptrs, 0);
-  mr_status_t crossref_status = mr_set_crossrefs (&ptrs);
-
   if (MR_SUCCESS == status)
-    status = crossref_status;
+    status = mr_set_crossrefs (&ptrs);
+
+  if (MR_SUCCESS != status)
+    {
+      /* release everything that was loaded before the failure, children are behind their parents */
+      mr_idx_t i;
+      for (i = ptrs.size / sizeof (ptrs.ra[0]) - 1; i > 0; --i)
+	if (((MR_TYPE_POINTER == ptrs.ra[i].mr_type) || (MR_TYPE_STRING == ptrs.ra[i].mr_type))
+	    && *(void**)ptrs.ra[i].data.ptr)
+	  {
+	    MR_FREE (*(void**)ptrs.ra[i].data.ptr);
+	    *(void**)ptrs.ra[i].data.ptr = NULL;
+	  }
+    }
 
   if (ptrs.ra != NULL)
     MR_FREE (ptrs.ra);
@@ -618,6 +629,8 @@ xdr_save_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 static mr_status_t
 xdr_load_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 {
+  *(char**)ptrs->ra[idx].data.ptr = NULL;
+
   if (!xdr_uint8_t (xdrs, (uint8_t*)&ptrs->ra[idx].flags))
     return (MR_FAILURE);
 
-- 
2.43.0


From fe8d1272835b85ab5cdd80dfed2423ea0237e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:35 +0000
Subject: [PATCH 13/23] fix: terminate on XML character references which do not
 end with a semicolon

---
 src/xml_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index f63b129..e747cbd 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -85,7 +85,7 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
 	  {
 	    int32_t code = 0;
 	    int size = 0;
-	    if (1 != sscanf (&substr->str[i], XML_QUOTE_CHAR_PATTERN "%n", &code, &size))
+	    if ((1 != sscanf (&substr->str[i], XML_QUOTE_CHAR_PATTERN "%n", &code, &size)) || (0 == size))
 	      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_WRONG_XML_ESC, esc);
 	    else
 	      {
-- 
2.43.0


From 1efa825ac7eab154dda6f479962b031286370a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:03 +0000
Subject: [PATCH 14/23] fix: do not read past the copy of an XML escape
 sequence

---
 src/xml_save.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index e747cbd..88d22d3 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -75,11 +75,10 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
       {
 	char esc[ESC_SIZE + 1];
 	strncpy (esc, &substr->str[i], sizeof (esc) - 1);
+	esc[sizeof (esc) - 1] = 0;
 	char * semicolon = strchr (esc, ';');
 	if (semicolon)
 	  semicolon[1] = 0;
-	else
-	  esc[sizeof (esc) - 1] = 0;
 	
 	if ('#' == substr->str[i + 1])
 	  {
-- 
2.43.0


From 5732975ecabe1f2559927b4b6739d66f234a6eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:15 +0000
Subject: [PATCH 15/23] fix: do not reallocate an element of an array of
 strings

---
 src/mr_load.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 38c9a22..3e0168a 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -481,7 +481,8 @@ mr_get_char_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs, char * str, size_t str_l
   mr_status_t status = MR_SUCCESS;
 
   if ((str_len >= max_size) && (ptrdes->parent != MR_NULL_IDX))
-    if (MR_TYPE_POINTER == ptrs->ra[ptrdes->parent].mr_type)
+    if ((MR_TYPE_POINTER == ptrs->ra[ptrdes->parent].mr_type) && /* reallocate only the block that consists of this string */
+	(ptrs->ra[ptrdes->parent].first_child == idx) && (MR_NULL_IDX == ptrdes->next))
       {
 	void * data = MR_REALLOC (ptrdes->data.ptr, str_len + 1);
 	if (NULL == data)
-- 
2.43.0


From 020ec2e213f30bb746fe0878cc5f8188f3ab0c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:15 +0000
Subject: [PATCH 16/23] fix: a failed load releases exactly the blocks it
 allocated, and a field loaded twice does not leak

---
 src/mr_load.c   | 117 +++++++++++++++++++++++++++++++++++-------------
 src/mr_protos.h |   1 +
 2 files changed, 87 insertions(+), 31 deletions(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 3e0168a..907e089 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -104,6 +104,26 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
   return (MR_SUCCESS);
 }
 
+static void
+mr_free_load_value (mr_ptrdes_t * ptrdes)
+{
+  switch (ptrdes->value_type)
+    {
+    case MR_VT_STRING:
+      if (ptrdes->load_params.vt_string)
+	MR_FREE (ptrdes->load_params.vt_string);
+      ptrdes->load_params.vt_string = NULL;
+      break;
+    case MR_VT_COMPLEX:
+      if (ptrdes->load_params.vt_complex)
+	MR_FREE (ptrdes->load_params.vt_complex);
+      ptrdes->load_params.vt_complex = NULL;
+      break;
+    default:
+      break;
+    }
+}
+
 void
 mr_free_load_values (mr_ra_ptrdes_t * ptrs)
 {
@@ -114,23 +134,41 @@ mr_free_load_values (mr_ra_ptrdes_t * ptrs)
 
   mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
   for (i = 1; i < count; ++i)
-    switch (ptrs->ra[i].value_type)
-      {
-      case MR_VT_STRING:
-	if (ptrs->ra[i].load_params.vt_string)
-	  MR_FREE (ptrs->ra[i].load_params.vt_string);
-	break;
-      case MR_VT_COMPLEX:
-	if (ptrs->ra[i].load_params.vt_complex)
-	  MR_FREE (ptrs->ra[i].load_params.vt_complex);
-	break;
-      default:
-	break;
-      }
+    mr_free_load_value (&ptrs->ra[i]);
   MR_FREE (ptrs->ra);
   memset (ptrs, 0, sizeof (*ptrs));
 }
 
+/**
+ * Assign a block to a loaded pointer or a string. Until the load succeeds the block belongs to
+ * the node, and it is released along with other values of nodes if the load fails.
+ * @param ptrdes pointer or string node
+ * @param block allocated memory
+ */
+static void
+mr_load_set_block (mr_ptrdes_t * ptrdes, void * block)
+{
+  if ((MR_VT_STRING != ptrdes->value_type) || (block != ptrdes->load_params.vt_string))
+    mr_free_load_value (ptrdes);
+  ptrdes->value_type = MR_VT_STRING;
+  ptrdes->load_params.vt_string = block;
+  *(void**)ptrdes->data.ptr = block;
+}
+
+/**
+ * @return block that belongs to the loaded node or NULL
+ */
+static void *
+mr_load_get_block (mr_ptrdes_t * ptrdes)
+{
+  if ((ptrdes->flags & (MR_IS_NULL | MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)) || (MR_VT_STRING != ptrdes->value_type))
+    return (NULL);
+  if ((MR_TYPE_STRING == ptrdes->mr_type) ||
+      ((MR_TYPE_POINTER == ptrdes->mr_type) && (ptrdes->first_child != MR_NULL_IDX)))
+    return (ptrdes->load_params.vt_string);
+  return (NULL);
+}
+
 /**
  * MR_NONE load handler (dummy)
  * @param idx node index
@@ -432,19 +470,23 @@ mr_load_string (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       switch (ptrdes->value_type)
 	{
 	case MR_VT_SUBSTR:
-	  *(char**)ptrdes->data.ptr = MR_CALLOC (1, ptrdes->load_params.vt_substr.length + sizeof (char));
-	  if (*(char**)ptrdes->data.ptr)
-	    memcpy (*(char**)ptrdes->data.ptr, ptrdes->load_params.vt_substr.str, ptrdes->load_params.vt_substr.length);
-	  else
-	    {
-	      MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
-	      status = MR_FAILURE;
-	    }
+	  {
+	    char * string = MR_CALLOC (1, ptrdes->load_params.vt_substr.length + sizeof (char));
+	    if (NULL != string)
+	      {
+		memcpy (string, ptrdes->load_params.vt_substr.str, ptrdes->load_params.vt_substr.length);
+		mr_load_set_block (ptrdes, string);
+	      }
+	    else
+	      {
+		MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
+		status = MR_FAILURE;
+	      }
+	  }
 	  break;
 	  
 	case MR_VT_STRING:
-	  *(char**)ptrdes->data.ptr = ptrdes->load_params.vt_string;
-	  ptrdes->load_params.vt_string = NULL;
+	  mr_load_set_block (ptrdes, ptrdes->load_params.vt_string);
 	  break;
 
 	case MR_VT_INT:
@@ -494,6 +536,7 @@ mr_get_char_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs, char * str, size_t str_l
 	  }
 		  
 	*(void**)ptrs->ra[ptrdes->parent].data.ptr = ptrdes->data.ptr = data;
+	ptrs->ra[ptrdes->parent].load_params.vt_string = data;
 	max_size = str_len + 1;
       }
 
@@ -750,12 +793,13 @@ mr_load_pointer_postponed (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
     return (MR_FAILURE);
 
   /* allocate memory */
-  *data = MR_CALLOC (count, fd_.stype.size);
-  if (NULL == *data)
+  void * block = MR_CALLOC (count, fd_.stype.size);
+  if (NULL == block)
     {
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
       return (MR_FAILURE);
     }
+  mr_load_set_block (ptrdes, block);
   
   /* load recursively */
   count = 0;
@@ -908,14 +952,25 @@ mr_load (void * data, mr_fd_t * fdp, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       if (MR_SUCCESS == status)
 	status = mr_set_crossrefs (ptrs);
 
-      if (MR_SUCCESS != status)
-	for (i = count - 1; i > 0; --i)
-	  if (((MR_TYPE_POINTER == ptrs->ra[i].mr_type) || (MR_TYPE_STRING == ptrs->ra[i].mr_type))
-	      && *(void**)ptrs->ra[i].data.ptr)
+      /* a block is lost if its pointer was overwritten, i.e. the same field or several members of one union were loaded */
+      for (i = 1; (MR_SUCCESS == status) && (i < count); ++i)
+	{
+	  void * block = mr_load_get_block (&ptrs->ra[i]);
+	  if ((NULL != block) && (*(void**)ptrs->ra[i].data.ptr != block))
 	    {
-	      MR_FREE (*(void**)ptrs->ra[i].data.ptr);
-	      *(void**)ptrs->ra[i].data.ptr = NULL;
+	      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_DUPLICATED_FIELD, ptrs->ra[i].fdp ? ptrs->ra[i].fdp->name.str : MR_DEFAULT_NODE_NAME);
+	      status = MR_FAILURE;
 	    }
+	}
+
+      for (i = 1; i < count; ++i)
+	if ((MR_TYPE_POINTER == ptrs->ra[i].mr_type) || (MR_TYPE_STRING == ptrs->ra[i].mr_type))
+	  {
+	    if (MR_SUCCESS != status)
+	      *(void**)ptrs->ra[i].data.ptr = NULL; /* blocks will be released along with values of nodes */
+	    else if (NULL != mr_load_get_block (&ptrs->ra[i]))
+	      ptrs->ra[i].load_params.vt_string = NULL; /* from now on this block belongs to the loaded object */
+	  }
     }
 
   if (fdp->non_persistent)
diff --git a/src/mr_protos.h b/src/mr_protos.h
index 1072fee..e887eff 100644
--- a/src/mr_protos.h
+++ b/src/mr_protos.h
@@ -57,6 +57,7 @@ TYPEDEF_ENUM (mr_message_id_t, ATTRIBUTES ( , "Messages enum. Message string sav
 	      (MR_MESSAGE_NODE_TYPE_MISSMATCH, , "Node '%s' type mismatch: expected '%s' got '%s'."),
 	      (MR_MESSAGE_UNSUPPORTED_NODE_TYPE, , "Unsupported node type: %d."),
 	      (MR_MESSAGE_RANGE_CHECK, , "Range check error in array '%s'."),
+	      (MR_MESSAGE_DUPLICATED_FIELD, , "Field '%s' is loaded more than once."),
 	      (MR_MESSAGE_READ_REF, , "Can't read '%s' as index."),
 	      (MR_MESSAGE_SAVE_ENUM, , "Can't find enum name for value %" SCNu64 " type '%s' field '%s'."),
 	      (MR_MESSAGE_CONFLICTED_ENUMS, , "Literal enum `%s` has a different value in type '%s': %" SCNu64" != %" SCNu64 "."),
-- 
2.43.0


From a453d8775a70a1c4f8ff255f0438f2d01afe624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 17/23] fix: XDR strings in arrays and strings that exceed
 their arrays

---
 src/xdr.c | 76 +++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/src/xdr.c b/src/xdr.c
index 8bab431..cd3e769 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -541,50 +541,76 @@ xdr_long_double_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 XDR_COMPLEX (long_double, long double);
 
 /**
- * Handler for char arrays.
+ * Save handler for char arrays.
  * @param xdrs XDR stream descriptor
  * @param idx index of node in ptrs
  * @param ptrs array with descriptor of loaded data
  * @return status
  */
 static mr_status_t
-xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
+xdr_save_char_array (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 {
-  mr_idx_t parent = ptrs->ra[idx].parent;
-  bool is_a_dynamic_string = ((parent != MR_NULL_IDX) && (MR_TYPE_POINTER == ptrs->ra[parent].mr_type));
   mr_ptrdes_t * ptrdes = &ptrs->ra[idx];
-  typeof (ptrdes->MR_SIZE) str_len;
-
-  if (XDR_ENCODE == xdrs->x_op)
+  mr_idx_t parent = ptrdes->parent;
+  char * string = ptrdes->data.string;
+  typeof (ptrdes->MR_SIZE) size = ptrdes->MR_SIZE;
+  uint32_t str_len;
+
+  /* single element of mr_static_string_t is a placeholder for zero-terminated string of any length */
+  if ((size <= sizeof (char)) && (parent != MR_NULL_IDX) && (MR_TYPE_POINTER == ptrs->ra[parent].mr_type) &&
+      (ptrs->ra[parent].first_child == idx) && (MR_NULL_IDX == ptrdes->next))
+    str_len = strlen (string) + 1;
+  else
     {
-      typeof (ptrdes->MR_SIZE) size = ptrdes->MR_SIZE;
-      char * string = ptrs->ra[idx].data.string;
-      if (is_a_dynamic_string)
-	str_len = strlen (string) + 1;
-      else
-	{
-	  for (str_len = 0; (str_len < size) && (*string != 0); ++str_len)
-	    ++string;
-
-	  if (str_len < size)
-	    str_len += 1;
-	}
+      str_len = strnlen (string, size);
+      if (str_len < size)
+	str_len += 1;
     }
 
   if (!xdr_uint32_t (xdrs, &str_len))
     return (MR_FAILURE);
 
-  if ((XDR_DECODE == xdrs->x_op) && (str_len > sizeof (char)) && is_a_dynamic_string)
+  return (xdr_opaque (xdrs, string, str_len) ? MR_SUCCESS : MR_FAILURE);
+}
+
+/**
+ * Load handler for char arrays.
+ * @param xdrs XDR stream descriptor
+ * @param idx index of node in ptrs
+ * @param ptrs array with descriptor of loaded data
+ * @return status
+ */
+static mr_status_t
+xdr_load_char_array (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
+{
+  mr_ptrdes_t * ptrdes = &ptrs->ra[idx];
+  mr_idx_t parent = ptrdes->parent;
+  mr_size_t size = ptrdes->fdp ? ptrdes->fdp->stype.size : 0;
+  uint32_t str_len;
+
+  if (!xdr_uint32_t (xdrs, &str_len))
+    return (MR_FAILURE);
+
+  if (str_len > size)
     {
-      void * data = MR_REALLOC (ptrs->ra[idx].data.ptr, str_len);
+      /* only a pointer on a single string owns the block that could be reallocated */
+      if ((parent == MR_NULL_IDX) || (MR_TYPE_POINTER != ptrs->ra[parent].mr_type) ||
+	  (ptrs->ra[parent].MR_SIZE > MR_MAX (size, sizeof (char))) ||
+	  (str_len == (typeof (str_len))-1))
+	{
+	  MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_STRING_TRUNCATED);
+	  return (MR_FAILURE);
+	}
+      void * data = MR_REALLOC (ptrdes->data.ptr, str_len + sizeof (char));
       if (NULL == data)
 	{
 	  MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
 	  return (MR_FAILURE);
 	}
-      *(void**)ptrs->ra[idx - 1].data.ptr = ptrs->ra[idx].data.ptr = data;
+      *(void**)ptrs->ra[parent].data.ptr = ptrdes->data.ptr = data;
+      ptrdes->data.string[str_len] = 0;
     }
-  return (xdr_opaque (xdrs, ptrs->ra[idx].data.ptr, str_len) ? MR_SUCCESS : MR_FAILURE);
+  return (xdr_opaque (xdrs, ptrdes->data.ptr, str_len) ? MR_SUCCESS : MR_FAILURE);
 }
 
 /**
@@ -1084,7 +1110,7 @@ static xdr_handler_t xdr_save_handler[MR_TYPE_LAST] =
     [MR_TYPE_LONG_DOUBLE] = xdr_long_double_,
     [MR_TYPE_COMPLEX_LONG_DOUBLE] = xdr_complex_long_double,
     [MR_TYPE_CHAR] = _xdr_int8_t,
-    [MR_TYPE_CHAR_ARRAY] = xdr_char_array_,
+    [MR_TYPE_CHAR_ARRAY] = xdr_save_char_array,
     [MR_TYPE_STRING] = xdr_save_string,
     [MR_TYPE_STRUCT] = xdr_none,
     [MR_TYPE_FUNC] = mr_xdr_pointer,
@@ -1154,7 +1180,7 @@ static xdr_handler_t xdr_load_handler[MR_TYPE_LAST] =
     [MR_TYPE_LONG_DOUBLE] = xdr_long_double_,
     [MR_TYPE_COMPLEX_LONG_DOUBLE] = xdr_complex_long_double,
     [MR_TYPE_CHAR] = _xdr_int8_t,
-    [MR_TYPE_CHAR_ARRAY] = xdr_char_array_,
+    [MR_TYPE_CHAR_ARRAY] = xdr_load_char_array,
     [MR_TYPE_STRING] = xdr_load_string,
     [MR_TYPE_STRUCT] = xdr_load_struct,
     [MR_TYPE_FUNC] = mr_xdr_pointer,
-- 
2.43.0


From 9d6be0c86323a7694d5df6d9192197d6741383d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 18/23] fix: XDR load trusted counts, references and flags of a
 damaged stream

---
 src/xdr.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/xdr.c b/src/xdr.c
index cd3e769..986a0fd 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -274,6 +274,12 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
 		    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_NULL_POINTER);
 		    status = MR_FAILURE;
 		  }
+		else if (MR_TYPE_STRING != ptrs->ra[ref_idx].mr_type)
+		  {
+		    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[ref_idx].mr_type);
+		    status = MR_FAILURE;
+		    data = NULL;
+		  }
 		else
 		  data = *(void**)data;
 	      }
@@ -344,7 +350,9 @@ mr_xdr_load (void * data, mr_fd_t * fdp, XDR * xdrs)
 	if (((MR_TYPE_POINTER == ptrs.ra[i].mr_type) || (MR_TYPE_STRING == ptrs.ra[i].mr_type))
 	    && *(void**)ptrs.ra[i].data.ptr)
 	  {
-	    MR_FREE (*(void**)ptrs.ra[i].data.ptr);
+	    /* references point on memory that is owned by other nodes */
+	    if (!(ptrs.ra[i].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)))
+	      MR_FREE (*(void**)ptrs.ra[i].data.ptr);
 	    *(void**)ptrs.ra[i].data.ptr = NULL;
 	  }
     }
@@ -681,15 +689,13 @@ xdr_load_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       *str = NULL;
       if (!xdr_uint32_t (xdrs, &size))
 	return (MR_FAILURE);
-      *str = MR_CALLOC (size + 1, sizeof (**str));
+      *str = MR_CALLOC ((size_t)size + 1, sizeof (**str));
       if (NULL == *str)
 	{
 	  MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
 	  return (MR_FAILURE);
 	}
-      if (!xdr_opaque (xdrs, *str, size))
-	return (MR_FAILURE);
-      return (MR_SUCCESS);
+      return (xdr_opaque (xdrs, *str, size) ? MR_SUCCESS : MR_FAILURE);
     }
 }
 
@@ -785,9 +791,11 @@ xdr_load_union (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  else
 	    status = xdr_load_inner (data + fdp->offset, fdp, xdrs, ptrs, idx);
 	}
-      MR_FREE (discriminator);
     }
 
+  if (discriminator != NULL)
+    MR_FREE (discriminator);
+
   return (status);
 }
 
@@ -948,6 +956,12 @@ xdr_load_array (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  if (fd_.stype.size == 0)
 	    return (MR_SUCCESS);
 
+	  if (ptrs->ra[idx].MR_SIZE / fd_.stype.size > count)
+	    {
+	      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_RANGE_CHECK, fd_.name.str);
+	      return (MR_FAILURE);
+	    }
+
 	  count = ptrs->ra[idx].MR_SIZE / fd_.stype.size;
 	  ptrs->ra[idx].MR_SIZE = count * fd_.stype.size;
 
@@ -1039,6 +1053,14 @@ xdr_load_pointer (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   if (ptrs->ra[idx].flags & MR_IS_NULL)
     return (MR_SUCCESS);
 
+  if (ptrs->ra[idx].flags & MR_IS_OPAQUE_DATA)
+    if ((NULL == ptrs->ra[idx].fdp) || (NULL == ptrs->ra[idx].fdp->name.str) ||
+	(0 != strcmp (ptrs->ra[idx].fdp->name.str, MR_OPAQUE_DATA_STR)))
+      {
+	MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_DATA);
+	return (MR_FAILURE);
+      }
+
   if (!xdr_uint32_t (xdrs, &ptrs->ra[idx].MR_SIZE))
     return (MR_FAILURE);
 
-- 
2.43.0


From 5974c2d675664dd561bb412bb4e48b27f391485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 19/23] fix: out of bounds access on maximum index and on
 content reference to a non-string

---
 src/mr_load.c   | 7 ++++++-
 src/yaml_load.c | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 907e089..30bf02b 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -37,7 +37,7 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     {
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
@@ -86,6 +86,11 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
 		MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_NULL_POINTER);
 		continue;
 	      }
+	    else if (MR_TYPE_STRING != ptrs->ra[idx].mr_type)
+	      {
+		MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[idx].mr_type);
+		continue;
+	      }
 	    else
 	      data = *(void**)data;
 	  }
diff --git a/src/yaml_load.c b/src/yaml_load.c
index bc670b7..cc5a197 100644
--- a/src/yaml_load.c
+++ b/src/yaml_load.c
@@ -12,7 +12,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     return;
 
-- 
2.43.0


From 58efb3b311675894cde68362019f888ee052b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:18 +0000
Subject: [PATCH 20/23] fix: negative zero had another hash than the zero it is
 equal to

---
 src/mr_extra.c | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 0ed63c4..6bd7005 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -260,14 +260,28 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
 	  mr_hash_block (ptrdes->data.ptr, sizeof (TYPE));	\
 	break;
 
+/* all NaN values compare equal as well as negative and positive zeros, so they must have the same hash */
 #define CASE_MR_FLOAT_TYPE_HASH(TYPE)					\
       case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = __builtin_isnan (*(TYPE*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
+	{								\
+	  TYPE value = *(TYPE*)ptrdes->data.ptr;			\
+	  if (0 == value)						\
+	    value = 0;							\
+	  ptrdes->res.data.uintptr = __builtin_isnan (value) ? -1 : mr_hash_block (&value, sizeof (value)); \
+	}								\
 	break;
 
 #define CASE_MR_COMPLEX_FLOAT_TYPE_HASH(TYPE)				\
       case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = (__builtin_isnan (__real__ *(TYPE*)ptrdes->data.ptr) || __builtin_isnan (__imag__ *(TYPE*)ptrdes->data.ptr)) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
+	{								\
+	  TYPE value = *(TYPE*)ptrdes->data.ptr;			\
+	  if (0 == __real__ value)					\
+	    __real__ value = 0;						\
+	  if (0 == __imag__ value)					\
+	    __imag__ value = 0;						\
+	  ptrdes->res.data.uintptr = (__builtin_isnan (__real__ value) || __builtin_isnan (__imag__ value)) ? \
+	    -1 : mr_hash_block (&value, sizeof (value));		\
+	}								\
 	break;
 
       MR_FOREACH (CASE_MR_TYPE_HASH, char, uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t, uint64_t, int64_t, mr_uint128_t, mr_int128_t);
@@ -275,16 +289,25 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
       MR_FOREACH (CASE_MR_COMPLEX_FLOAT_TYPE_HASH, complex_float_t, complex_double_t);
 	  
     case MR_TYPE_LONG_DOUBLE:
-      ptrdes->res.data.uintptr = __builtin_isnan (*(long_double_t*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, MR_SIZEOF_LONG_DOUBLE);
+      {
+	long_double_t value = *(long_double_t*)ptrdes->data.ptr;
+	if (0 == value)
+	  value = 0;
+	ptrdes->res.data.uintptr = __builtin_isnan (value) ? -1 : mr_hash_block (&value, MR_SIZEOF_LONG_DOUBLE);
+      }
       break;
 
     case MR_TYPE_COMPLEX_LONG_DOUBLE:
       {
-	long double * real = &__real__ *(complex long double *)ptrdes->data.ptr;
-	long double * imag = &__imag__ *(complex long double *)ptrdes->data.ptr;
+	long double real = __real__ *(complex long double *)ptrdes->data.ptr;
+	long double imag = __imag__ *(complex long double *)ptrdes->data.ptr;
+	if (0 == real)
+	  real = 0;
+	if (0 == imag)
+	  imag = 0;
 	ptrdes->res.data.uintptr =
-	  (__builtin_isnan (*real) || __builtin_isnan (*imag)) ? -1 :
-	  mr_hash_block (real, MR_SIZEOF_LONG_DOUBLE) + mr_hash_block (imag, MR_SIZEOF_LONG_DOUBLE);
+	  (__builtin_isnan (real) || __builtin_isnan (imag)) ? -1 :
+	  mr_hash_block (&real, MR_SIZEOF_LONG_DOUBLE) + mr_hash_block (&imag, MR_SIZEOF_LONG_DOUBLE);
       }
       break;
 	  
-- 
2.43.0


From 4dac588297956c939ff039f19857d6ccee3ab48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:52 +0000
Subject: [PATCH 21/23] fix: comparison of complex numbers with NaN parts was
 not transitive

---
 src/mr_extra.c | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 6bd7005..62a9338 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -467,36 +467,21 @@ mr_cmp_structs (mr_ra_ptrdes_t * x, mr_ra_ptrdes_t * y)
 	    {								\
 	      TYPE _x = *(TYPE*)x_i->data.ptr;				\
 	      TYPE _y = *(TYPE*)y_i->data.ptr;				\
-	      bool rx_isnan = __builtin_isnan (__real__ _x);		\
-	      bool ix_isnan = __builtin_isnan (__imag__ _x);		\
-	      bool ry_isnan = __builtin_isnan (__real__ _y);		\
-	      bool iy_isnan = __builtin_isnan (__imag__ _y);		\
-	      if (((rx_isnan || ix_isnan)) && ((ry_isnan || iy_isnan)))	\
-		continue;						\
-	      if (!rx_isnan && !ry_isnan)				\
+	      bool x_isnan = __builtin_isnan (__real__ _x) || __builtin_isnan (__imag__ _x); \
+	      bool y_isnan = __builtin_isnan (__real__ _y) || __builtin_isnan (__imag__ _y); \
+	      /* values with any NaN part are all equal and less than the others */ \
+	      diff = !x_isnan - !y_isnan;				\
+	      if (diff)							\
+		return (diff);						\
+	      if (!x_isnan)						\
 		{							\
 		  diff = (__real__ _x > __real__ _y) - (__real__ _x < __real__ _y); \
 		  if (diff)						\
 		    return (diff);					\
-		}							\
-	      else							\
-		{							\
-		  diff = !rx_isnan - !ry_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      if (!ix_isnan && !iy_isnan)				\
-		{							\
 		  diff = (__imag__ _x > __imag__ _y) - (__imag__ _x < __imag__ _y); \
 		  if (diff)						\
 		    return (diff);					\
 		}							\
-	      else							\
-		{							\
-		  diff = !ix_isnan - !iy_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
 	    }								\
 	    break;
 
-- 
2.43.0


From ab69f8c6f96a9f4becd1ad25c588b8fbd1f25799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:26 +0000
Subject: [PATCH 22/23] fix: character arrays without terminating zero were
 compared and hashed out of their bounds

---
 src/mr_extra.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 62a9338..302cb2f 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -232,6 +232,20 @@ mr_hash_str (char * str)
   return (str ? mr_hash_block (str, strlen (str)) : 1);
 }
 
+/* number of characters in an array, the terminating zero is absent when string takes all the array */
+static size_t
+char_array_max_len (mr_ra_ptrdes_t * ptrs, mr_idx_t idx)
+{
+  mr_ptrdes_t * ptrdes = &ptrs->ra[idx];
+  mr_idx_t parent = ptrdes->parent;
+
+  /* single element of mr_static_string_t is a placeholder for zero-terminated string of any length */
+  if ((ptrdes->MR_SIZE <= sizeof (char)) && (parent != MR_NULL_IDX) && (MR_TYPE_POINTER == ptrs->ra[parent].mr_type) &&
+      (ptrs->ra[parent].first_child == idx) && (MR_NULL_IDX == ptrdes->next))
+    return (SIZE_MAX >> 1);
+  return (ptrdes->MR_SIZE);
+}
+
 static mr_status_t
 node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order, void * context)
 {
@@ -247,7 +261,7 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
       break;
 	  
     case MR_TYPE_CHAR_ARRAY:
-      ptrdes->res.data.uintptr = mr_hash_str ((char*)ptrdes->data.ptr);
+      ptrdes->res.data.uintptr = mr_hash_block (ptrdes->data.ptr, strnlen (ptrdes->data.ptr, char_array_max_len (ptrs, idx)));
       break;
 	  
     case MR_TYPE_BOOL:
@@ -432,7 +446,7 @@ mr_cmp_structs (mr_ra_ptrdes_t * x, mr_ra_ptrdes_t * y)
 	  }
 	  
 	case MR_TYPE_CHAR_ARRAY:
-	  diff = strcmp (x_i->data.ptr, y_i->data.ptr);
+	  diff = strncmp (x_i->data.ptr, y_i->data.ptr, char_array_max_len (x, i));
 	  if (diff)
 	    return (diff);
 	  break;
-- 
2.43.0


From 142d20abb4e4e02bca09358f685d7614567636f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:23 +0000
Subject: [PATCH 23/23] fix: sorting of character arrays compared them out of
 their bounds

---
 src/mr_ic.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 7ba03fa..181fa20 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -78,7 +78,8 @@ static int MR_TYPE_CMP_FUNC_NAME (char_array) (const mr_ptr_t x, const mr_ptr_t
 {
   char * _x = x.ptr;
   char * _y = y.ptr;
-  return (strcmp (_x, _y));
+  const size_t * size = context; /* the terminating zero is absent when string takes all the array */
+  return (strncmp (_x, _y, *size));
 }
 
 static mr_compar_fn_t
@@ -108,7 +109,7 @@ mr_basic_types_sort (void * data, size_t count, char * key_type, mr_type_t mr_ty
       mr_compar_fn_t compar_fn = mr_type_compar_fn (mr_type);
       if (NULL == compar_fn)
 	return (MR_FAILURE);
-      mr_hsort (data, count, element_size, compar_fn, NULL);
+      mr_hsort (data, count, element_size, compar_fn, &element_size);
     }
   return (MR_SUCCESS);
 }
-- 
2.43.0

