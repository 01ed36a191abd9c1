From 1a23f981d8cad519759eb162d3dd4911428def0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:36 +0000
Subject: [PATCH 01/67] fix: unclosed ( comment made the lexer loop forever at
 end of file

---
 lex1.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lex1.c b/lex1.c
index 0042c2b..dc1c485 100644
--- a/lex1.c
+++ b/lex1.c
@@ -409,6 +409,10 @@ parse_file(FILE *f)
       } else if (c == '\n') {
         line++;
         column=0;
+      } else if (c == EOF) {
+        fprintf(stderr, "Unclosed ( comment at end of file\n");
+        had_bad_tokens = 1;
+        goto done;
       }
       
     } else {
-- 
2.43.0


From 7cc35c994d657f44cd115680b7fe8c013c12a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:36 +0000
Subject: [PATCH 02/67] fix: text ending inside a number or tense dereferenced
 a null token

---
 categ.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/categ.c b/categ.c
index 4377bd1..40a045e 100644
--- a/categ.c
+++ b/categ.c
@@ -379,9 +379,13 @@ static void categorize_tenses(TreeNode *head)/*{{{*/
     }
     if (y == head) {
       /* Run to end of text */
-      insert_marker_before(x, PRIVATE_START_TENSE, "PRIVATE_START_TENSE");
-      insert_marker_after(last_ok_token, PRIVATE_END_TENSE, "PRIVATE_END_TENSE");
-      next_tok = last_ok_token->next->next; /* marker->next */
+      if (last_ok_token) {
+        insert_marker_before(x, PRIVATE_START_TENSE, "PRIVATE_START_TENSE");
+        insert_marker_after(last_ok_token, PRIVATE_END_TENSE, "PRIVATE_END_TENSE");
+        next_tok = last_ok_token->next->next; /* marker->next */
+      } else {
+        next_tok = x->next; /* Default case : failure */
+      }
     }
 
 next_outer_loop:
-- 
2.43.0


From 4cdf03698122c9fed79d7af70a0469b025559cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 03/67] fix: long words and words holding several la or doi
 overflowed the lexer's fixed buffers and the stack

---
 lex1.c | 40 +++++++++++++++++++++++++++++++---------
 morf.c | 10 +++++++---
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/lex1.c b/lex1.c
index dc1c485..4f1462f 100644
--- a/lex1.c
+++ b/lex1.c
@@ -20,7 +20,7 @@
 
 static char zoi_form[8]; /* la'o or zoi */
 static int  zoi_delim_next;
-static char zoi_delim[64];
+static char *zoi_delim;
 static int zoi_start_line, zoi_start_col;
 static char *zoi_data;
 
@@ -185,9 +185,11 @@ process_cmene(char *buf, int start_line, int start_column,
   TreeNode *tok;
 
   if (is_bad)  {
-    char prefix[65536], labuf[8];
+    char *prefix, *labuf;
     char *p, *q;
     int len1, len2;
+    prefix = new_array(char, strlen(buf) + 1);
+    labuf = new_array(char, strlen(buf) + 1);
     for (p=buf, q=prefix, len1=0; p!=ladoi; len1++) *q++ = *p++;
     *q = 0;
     for (p=ladoi, q=labuf, len2=0; p!=tail; len2++) *q++ = *p++;
@@ -196,6 +198,8 @@ process_cmene(char *buf, int start_line, int start_column,
     if (prefix[0]) process_word(prefix, start_line, start_column);
     process_word(labuf, start_line, start_column+len1);
     process_word(tail, start_line, start_column+len1+len2);
+    Free(prefix);
+    Free(labuf);
   } else {
     tok = new_node();
     tok->start_line = start_line;
@@ -216,7 +220,8 @@ add_preceding_cmavo(char **pws, char **pwe, int start_line, int *column)
   char **pw;
   char *p, *q;
   int incr;
-  char buf2[65536];
+  char *buf2;
+  buf2 = new_array(char, strlen(*pws) + 1);
   for (pw=pws; pw<pwe; pw++) {
     incr = 0;
     for (p=*pw, q=buf2; p<*(pw+1);) {
@@ -227,6 +232,7 @@ add_preceding_cmavo(char **pws, char **pwe, int start_line, int *column)
     process_cmavo(buf2, start_line, *column);
     *column += incr;
   }
+  Free(buf2);
 }
 
 
@@ -241,9 +247,9 @@ add_preceding_cmavo(char **pws, char **pwe, int start_line, int *column)
 static int
 process_word(char *buf, int start_line, int start_column)
 {
-  char buf2[65536];
+  char *buf2;
   TreeNode *tok;
-  char *word_starts[65536];
+  char **word_starts;
   char **pws, **pwe;
   MorfType morf_type;
   struct morf_xtra mx;
@@ -260,7 +266,8 @@ process_word(char *buf, int start_line, int start_column)
       tok->data.zoi.text = zoi_data;
       add_token(tok);
       zoi_data = NULL;
-      zoi_delim[0] = 0;
+      Free(zoi_delim);
+      zoi_delim = NULL;
     } else {
       if (zoi_data[0]) {
         zoi_data = extend_string(zoi_data, " ");
@@ -271,7 +278,7 @@ process_word(char *buf, int start_line, int start_column)
   }
 
   if (zoi_delim_next) {
-    strcpy(zoi_delim, buf);
+    zoi_delim = new_string(buf);
     zoi_data = new_string("");
     zoi_delim_next = 0;
     return 1;
@@ -295,6 +302,8 @@ process_word(char *buf, int start_line, int start_column)
 
   /* Analyse word type */
   
+  buf2 = new_array(char, strlen(buf) + 1);
+  word_starts = new_array(char *, strlen(buf) + 1);
   pws = pwe = word_starts;
   /* FIXME: Need to get morf_xtra info back here, to help with splitting bad
    * cmene */
@@ -357,6 +366,8 @@ process_word(char *buf, int start_line, int start_column)
       assert(0);
       break;
   }
+  Free(word_starts);
+  Free(buf2);
   return 1;
 }
 
@@ -379,7 +390,8 @@ process_word(char *buf, int start_line, int start_column)
 void
 parse_file(FILE *f)
 {
-  char buffer[65536]; /* buffer for words */
+  char *buffer; /* buffer for words, extended as required */
+  int buffer_size = 256;
   char *p;
   int c;
   int line;
@@ -389,13 +401,14 @@ parse_file(FILE *f)
   int new_tok;
   int paren_depth = 0;
 
-  zoi_delim[0] = 0;
+  zoi_delim = NULL;
   zoi_delim_next = 0;
 
   line = 1;
   column = 0;
   new_tok = 1;
 
+  buffer = new_array(char, buffer_size);
   p = buffer;
   do {
     c = fgetc(f);
@@ -449,6 +462,13 @@ parse_file(FILE *f)
             break;
           default:
             SET_START;
+            if (p - buffer >= buffer_size - 1) {
+              /* Keep room for the terminating null */
+              int used = p - buffer;
+              buffer_size += buffer_size;
+              buffer = (char *) Realloc(buffer, buffer_size);
+              p = buffer + used;
+            }
             *p++ = c;
             break;
         }
@@ -462,6 +482,8 @@ done:
     fprintf(stderr, "Unclosed %s construction at end of file\n", zoi_form);
     had_bad_tokens = 1;
   }
+
+  Free(buffer);
   
   return;
 
diff --git a/morf.c b/morf.c
index 7e2ecb9..5ad89b1 100644
--- a/morf.c
+++ b/morf.c
@@ -16,10 +16,11 @@
 
 /* COPYRIGHT */
 
-#ifdef TEST_MORF
-#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+
+#ifdef TEST_MORF
+#include <stdio.h>
 #include <assert.h>
 #include <ctype.h>
 #include "canonluj.h"
@@ -210,7 +211,7 @@ MorfType morf_scan(char *s, char ***buf_end, struct morf_xtra *arg_xtra)/*{{{*/
   unsigned int vsm = 0111; /* 3 consonants as starting state */
   char *p, c;
   char **start, **pstart;
-  char *cstart[65536], **pcstart; /* Used for holding start of Cy structures */
+  char **cstart, **pcstart; /* Used for holding start of Cy structures */
   int ent, tent, tok, set, inhibit;
   int state, next_state;
   int inhibited = 0, initial = 1;
@@ -248,6 +249,7 @@ MorfType morf_scan(char *s, char ***buf_end, struct morf_xtra *arg_xtra)/*{{{*/
   start = *buf_end;
   pstart = start;
 
+  cstart = (char **) malloc((strlen(s) + 1) * sizeof(char *));
   pcstart = cstart;
   
   L = S = 0;
@@ -678,6 +680,8 @@ MorfType morf_scan(char *s, char ***buf_end, struct morf_xtra *arg_xtra)/*{{{*/
   }
 #endif
 
+  free(cstart);
+
   *buf_end = pstart - 1;
   /* Allow arg_xtra to be NULL, as the data isn't always needed */
   if (arg_xtra) *arg_xtra = xtra;
-- 
2.43.0


From cd389ffbe66704a09d34fd86776f0afbb379680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 04/67] fix: deeply nested texts overflowed the stack while
 printing the bracketed form

---
 tree.c | 51 ++++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/tree.c b/tree.c
index 661d06a..32fbf76 100644
--- a/tree.c
+++ b/tree.c
@@ -299,6 +299,24 @@ typedef enum {
   CV_5
 } Conversion;
 
+/*++++++++++++++++++++++++++++++
+  Look up the concatenation of two strings.  (The buffer is kept out of the
+  stack frame of print_bracketed, which recurses as deeply as the parse tree.)
+  ++++++++++++++++++++++++++++++*/
+
+static char *
+translate_joined(char *first, char *second)
+{
+  char *buffer, *result;
+
+  buffer = new_array(char, strlen(first) + strlen(second) + 1);
+  strcpy(buffer, first);
+  strcat(buffer, second);
+  result = translate(buffer);
+  Free(buffer);
+  return result;
+}
+
 /*++++++++++++++++++++++++++++++
   Print out 'raw' bracketed version of the text
   ++++++++++++++++++++++++++++++*/
@@ -310,7 +328,6 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
   TreeNode *c1, *c2;
   Conversion child_conv;
   char *english;
-  char buffer[65536];
 
   if (x->type == N_NONTERM) {
     clear_eols(state);
@@ -400,24 +417,16 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
                 english = translate(cmavo_table[x->data.cmavo.code].cmavo);
                 break;
               case CV_2:
-                strcpy(buffer, "se");
-                strcat(buffer, cmavo_table[x->data.cmavo.code].cmavo);
-                english = translate(buffer);
+                english = translate_joined("se", cmavo_table[x->data.cmavo.code].cmavo);
                 break;
               case CV_3:
-                strcpy(buffer, "te");
-                strcat(buffer, cmavo_table[x->data.cmavo.code].cmavo);
-                english = translate(buffer);
+                english = translate_joined("te", cmavo_table[x->data.cmavo.code].cmavo);
                 break;
               case CV_4:
-                strcpy(buffer, "ve");
-                strcat(buffer, cmavo_table[x->data.cmavo.code].cmavo);
-                english = translate(buffer);
+                english = translate_joined("ve", cmavo_table[x->data.cmavo.code].cmavo);
                 break;
               case CV_5:
-                strcpy(buffer, "xe");
-                strcat(buffer, cmavo_table[x->data.cmavo.code].cmavo);
-                english = translate(buffer);
+                english = translate_joined("xe", cmavo_table[x->data.cmavo.code].cmavo);
                 break;
             }
             if (english) {
@@ -489,24 +498,16 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
               case CV_NORMAL:
                 abort();
               case CV_2:
-                strcpy(buffer, x->data.brivla.word);
-                strcat(buffer, "2");
-                english = translate(buffer);
+                english = translate_joined(x->data.brivla.word, "2");
                 break;
               case CV_3:
-                strcpy(buffer, x->data.brivla.word);
-                strcat(buffer, "3");
-                english = translate(buffer);
+                english = translate_joined(x->data.brivla.word, "3");
                 break;
               case CV_4:
-                strcpy(buffer, x->data.brivla.word);
-                strcat(buffer, "4");
-                english = translate(buffer);
+                english = translate_joined(x->data.brivla.word, "4");
                 break;
               case CV_5:
-                strcpy(buffer, x->data.brivla.word);
-                strcat(buffer, "5");
-                english = translate(buffer);
+                english = translate_joined(x->data.brivla.word, "5");
                 break;
             }
             if (english) {
-- 
2.43.0


From a265f18f7626caa353d803cad0df5819e6635cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:46 +0000
Subject: [PATCH 05/67] fix: -bt named the wrong reduced rules and read past
 its tables

---
 output2table.pl | 5 +++--
 tracebk.c       | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/output2table.pl b/output2table.pl
index 8257259..b857df6 100644
--- a/output2table.pl
+++ b/output2table.pl
@@ -161,12 +161,13 @@ print "};\n";
 $n=0;
 $t = 0;
 print "static unsigned short ".$prefix."_ruleindex[] = {\n";
-for ($s=0;$s<=$#lhs;$s++) {
+# (including one entry past the end, to give the end of the last rule)
+for ($s=0;$s<=$#lhs+1;$s++) {
     print ", " unless ($n==0);
     printf "%d", $t;
     $n++;
     print "\n" if ($n%10 == 0);
-    $t += $rhsperrule[$s];
+    $t += $rhsperrule[$s] if ($s <= $#lhs);
 }
 print "};\n";
 
diff --git a/tracebk.c b/tracebk.c
index 3a8a022..80b51c7 100644
--- a/tracebk.c
+++ b/tracebk.c
@@ -17,7 +17,8 @@ typedef struct {
   int rule;
 } Reduction;
 
-static Reduction reductions[1024];
+#define MAX_REDUCTIONS 1024
+static Reduction reductions[MAX_REDUCTIONS];
 static int n_reductions=0;
 
 /* command line options in main.c */
@@ -52,7 +53,10 @@ display_rule(int ruleno, int indent, int focus)
 void
 report_trace_reduce(int stateno, int ruleno)
 {
-  reductions[n_reductions].rule = ruleno;
+  if (n_reductions >= MAX_REDUCTIONS) return;
+  /* The parser counts its rules from 1, the tables (built from the numbers
+     shown in bison's .output file) count them from 0. */
+  reductions[n_reductions].rule = ruleno - 1;
   reductions[n_reductions].state = stateno;
   n_reductions++;
 }
-- 
2.43.0


From 4dc1f8bc49d45966ad7786f30ad7bb5aca8a55b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:46 +0000
Subject: [PATCH 06/67] fix: choice of noun or verb gloss depended on
 uninitialised memory

---
 properties.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties.c b/properties.c
index 72eb283..b0648b7 100644
--- a/properties.c
+++ b/properties.c
@@ -146,6 +146,7 @@ prop_glosstype(TreeNode *x, int create)
   if (!result && create) {
     result = (XGlosstype *) fetch_conversion(x, YES, EX_GLOSSTYPE);
     result->is_tertau = 0;
+    result->in_selbri = 0;
   }
 
   return result;
-- 
2.43.0


From 1941a29cb8d02e805721d2af7ae1c9714cfca964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:19 +0000
Subject: [PATCH 07/67] fix: bu at the start of the text, an empty lo'u le'u
 and lo'u..le'u joined with zei aborted

---
 lex2.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lex2.c b/lex2.c
index 133f5f4..0f1d60c 100644
--- a/lex2.c
+++ b/lex2.c
@@ -222,6 +222,10 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
       case N_ZO:
         len += 3 + strlen(y->data.zo.text);
         break;
+
+      case N_LOhU:
+        len += 7 + strlen(y->data.lohu.text);
+        break;
      
       case N_ZEI:
         /* Not particularly efficient, the strings get built again later for now! */
@@ -234,7 +238,6 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
      
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
@@ -277,6 +280,12 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
         strcat(result, y->data.zo.text);
         break;
 
+      case N_LOhU:
+        strcat(result, "lo'u+\"");
+        strcat(result, y->data.lohu.text);
+        strcat(result, "\"");
+        break;
+
       case N_ZEI:
         strcat(result, y->data.zei.sep_with_zei);
         break;
@@ -287,7 +296,6 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
      
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
@@ -418,7 +426,7 @@ handle_lohu(void)
       } while (1);
 
       x->type = N_LOhU;
-      x->data.lohu.text = build_string_from_nodes(start, end);
+      x->data.lohu.text = (start == term) ? new_string("") : build_string_from_nodes(start, end);
 
       term->next->prev = x;
       x->next = term->next;
@@ -585,6 +593,11 @@ handle_bu(void)
     if (x->type == N_CMAVO &&
         x->data.cmavo.selmao == BU) {
       y = x->prev;
+      if (y == &toks) {
+        fprintf(stderr, "Cannot have 'bu' at the start of the text\n");
+        had_bad_tokens = 1; /* flag back to main */
+        continue;
+      }
       x->type = N_BU;
       switch (y->type) {
         case N_CMAVO:
-- 
2.43.0


From 409e2ea053b14898f16854aebafe89fee64e9823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:20 +0000
Subject: [PATCH 08/67] fix: a name with a vowel or y after y jammed the
 la/lai/doi checker, which then read outside its tables

---
 bctables.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bctables.in b/bctables.in
index c090a8f..de71aea 100644
--- a/bctables.in
+++ b/bctables.in
@@ -50,6 +50,7 @@ Block MAIN
 
     State y
         APOS -> a
+        VOWEL|Y -> v
         COMMA ; VOWEL|Y -> v
         CONS -> c
         -> nosplit.in
-- 
2.43.0


From 4e56cc1b23d5f90cec88cbbf938ac7424f59ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:01 +0000
Subject: [PATCH 09/67] fix: arguments shared by gi'e ke ... ke'e came from an
 uninitialised vector

---
 terms.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terms.c b/terms.c
index af6a9cf..e8c879d 100644
--- a/terms.c
+++ b/terms.c
@@ -1343,11 +1343,11 @@ static void process_bridi_tail(TreeNode *bt, TermVector *pre, TermVector *post)/
         process_bridi_tail_1(bt1, pre, &new_post);
         process_bridi_tail(btc, pre, &new_post);
       } else {
-        process_bridi_tail_1(bt1, pre, &new_post);
+        process_bridi_tail_1(bt1, pre, post);
         process_bridi_tail(btc, pre, post);
       }
     } else {
-      process_bridi_tail_1(bt1, pre, &new_post);
+      process_bridi_tail_1(bt1, pre, post);
       process_bridi_tail(btc, pre, post);
     }
   }
-- 
2.43.0


From 50983e5b9235dd6be3f4194ae0552c662b5fc70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:01 +0000
Subject: [PATCH 10/67] fix: more than 20 terms, linked sumti or conversions
 overflowed fixed arrays

---
 terms.c | 54 ++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/terms.c b/terms.c
index e8c879d..a9a7805 100644
--- a/terms.c
+++ b/terms.c
@@ -101,13 +101,17 @@ static void tv_catenate(TermVector *s1, TermVector *s2, TermVector *r)/*{{{*/
   int i, n1, n2;
   tn = s1->n_nodes + s2->n_nodes;
 
+  n1 = s1->n_nodes;
+  n2 = s2->n_nodes;
+
   /* If this is exceeded, we'll need to reassess the design.  Really
      ought to make the arrays dynamic but that incurs hassle of
      releasing them. */
-  assert(tn <= MAX_TERMS_IN_VECTOR);
-
-  n1 = s1->n_nodes;
-  n2 = s2->n_nodes;
+  if (tn > MAX_TERMS_IN_VECTOR) {
+    fprintf(stderr, "Too many terms, no place tagging for the last %d\n", tn - MAX_TERMS_IN_VECTOR);
+    tn = MAX_TERMS_IN_VECTOR;
+    n2 = tn - n1;
+  }
 
   r->n_nodes = tn;
 
@@ -139,10 +143,21 @@ static void lc_init(LinkConv *lc)/*{{{*/
   lc->n = 0;
 }
 /*}}}*/
+static int lc_is_full(LinkConv *lc)/*{{{*/
+{
+  /* Check whether there is no room for another entry in a linkconv chain */
+  if (lc->n < MAX_TERMS_IN_VECTOR) {
+    return 0;
+  } else {
+    fprintf(stderr, "Too many conversions and linked sumti, place tagging will be faulty\n");
+    return 1;
+  }
+}
+/*}}}*/
 static void lc_append_se(LinkConv *lc, int conv, TreeNode *senode)/*{{{*/
 {
   /* Append a SE conversion to a linkconv chain */
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  if (lc_is_full(lc)) return;
 
   lc->e[lc->n].data.se.conv = conv;
   lc->e[lc->n].data.se.senode = senode;
@@ -152,7 +167,7 @@ static void lc_append_se(LinkConv *lc, int conv, TreeNode *senode)/*{{{*/
 /*}}}*/
 static void lc_append_jai_tag(LinkConv *lc, TreeNode *tag, TreeNode *inner_tu2)/*{{{*/
 {
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  if (lc_is_full(lc)) return;
 
   lc->e[lc->n].data.jai_tag.tag = tag;
   lc->e[lc->n].data.jai_tag.inner_tu2 = inner_tu2;
@@ -163,7 +178,7 @@ static void lc_append_jai_tag(LinkConv *lc, TreeNode *tag, TreeNode *inner_tu2)/
 /*}}}*/
 static void lc_append_jai(LinkConv *lc)/*{{{*/
 {
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  if (lc_is_full(lc)) return;
 
   lc->e[lc->n].type = LC_JAI;
   ++(lc->n);
@@ -174,7 +189,7 @@ static void lc_append_links(LinkConv *lc, TermVector *v)/*{{{*/
 {
   /* Append a set of linked sumti to a linkconv chain.  Note, a dynamic COPY is
      made of 'v'. */
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  if (lc_is_full(lc)) return;
   lc->e[lc->n].data.links = new(TermVector);
 
   /* Deep structure copy */
@@ -274,9 +289,17 @@ static void tv_build(TermVector *r, TreeNode *x)/*{{{*/
   TreeNode *xx, *t1, *t2, *t, *tc, *tcc;
   struct nonterm *ntx, *ntt;
   int nc, ntc;
+  int n_terms;
 
   type_check(x, TERMS);
 
+  /* Only the first terms are kept if there are too many. */
+  n_terms = 1;
+  for (xx = x; xx->data.nonterm.nchildren == 2; xx = xx->data.nonterm.children[0]) n_terms++;
+  if (n_terms > MAX_TERMS_IN_VECTOR) {
+    fprintf(stderr, "Too many terms, no place tagging for the last %d\n", n_terms - MAX_TERMS_IN_VECTOR);
+  }
+
   /* The main hassle is that the <terms> rule is left recursive, so we
      build the vector backwards and reverse it at the end. */
   tv_init(&vv);
@@ -297,6 +320,8 @@ static void tv_build(TermVector *r, TreeNode *x)/*{{{*/
 
     type_check(t1, TERMS_1);
 
+    if (n_terms-- > MAX_TERMS_IN_VECTOR) continue;
+
     /* No point assertion checking whether the children are
        nonterminals, they must be from the grammar */
     ntt = &t1->data.nonterm;
@@ -531,8 +556,8 @@ static void assign_terms_to_places(TermVector *t, Place *place, Place *fai, int
     switch (t->nodes[i].type) {
       case TRM_POS :
         /* Look for first unassigned place */
-        while (place[base].taken) ++base;
-        if (base > MAX_POS) {
+        while (base < MAX_POS && place[base].taken) ++base;
+        if (base >= MAX_POS) {
           fprintf(stderr, "Too many places assigned\n");
         } else {
           fixup_term_place(t->nodes[i].node, &place[base], tt);
@@ -664,7 +689,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           int j;
           /* Shift fai place array up (i.e. need subscripts if more
              than one fai place is in scope). */
-          for (j=1; ; j++) {
+          for (j=1; j<MAX_POS-1; j++) {
             if (!fai[j].valid) break;
           }
           for (; j>1; j--) {
@@ -683,7 +708,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           int j;
           /* Shift fai place array up (i.e. need subscripts if more
              than one fai place is in scope). */
-          for (j=1; ; j++) {
+          for (j=1; j<MAX_POS-1; j++) {
             if (!fai[j].valid) break;
           }
           for (; j>1; j--) {
@@ -1595,6 +1620,11 @@ static void check_tu1_for_links(TreeNode *tu1)/*{{{*/
       /* Now, what sort of term is it? Have to drill down one layer further */
       tc = child_ref(tm, 0);
 
+      if (tv.n_nodes == MAX_TERMS_IN_VECTOR) {
+        fprintf(stderr, "Too many linked sumti at line %d, place tagging will be faulty\n", tm->start_line);
+        break;
+      }
+
       switch (tc->data.nonterm.type) {
         case TERM_PLAIN_SUMTI:
           tv.nodes[tv.n_nodes].type = TRM_POS;
-- 
2.43.0


From 192f0da416dde263227574c7f8d30bb89eab1900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:21 +0000
Subject: [PATCH 11/67] fix: lujvo and zei compounds of more than five letters
 a part or 32 parts overflowed the gloss splitter

Component texts were copied into six bytes and at most 32 components were
kept; broken class letters and a trailing % in dictionary entries were
dereferenced too.
---
 translate.c | 94 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 63 insertions(+), 31 deletions(-)

diff --git a/translate.c b/translate.c
index 092811f..72603c4 100644
--- a/translate.c
+++ b/translate.c
@@ -30,13 +30,13 @@ static int bufptr=0;
 typedef struct Component {/*{{{*/
   int start; /* 0 for 1st, pos of + for others (before conversions) */
   int pure_start; /* likewise, but just the gismu/cmavo excl conversions) */
-  char text[6];
+  char *text; /* points into the string that was split */
   int places[6];
 } Component;/*}}}*/
 
 /*{{{ Forward prototype for place/context translater. */
 extern char *adv_translate(char *w, int place, TransContext ctx);
-static void split_into_comps(char *canon, Component *comp, int *ncomp);
+static char *split_into_comps(char *canon, Component **comp, int *ncomp);
 /*}}}*/
 
 char * translate(char *word)/*{{{*/
@@ -55,13 +55,19 @@ char * translate(char *word)/*{{{*/
   }
 
 }/*}}}*/
+static int place_in_comp(Component *comp, int place)/*{{{*/
+/* Map a place of a converted component to the place of the word itself.  SE
+   never moves the places beyond x5. */
+{
+  return (place >= 1 && place <= 5) ? comp->places[place] : place;
+}/*}}}*/
 static char * translate_lujvo(char *word, int place)/*{{{*/
 /* Lookup a lujvo that isn't matched in the ordinary dictionary, by
    smashing it into consituent rafsi and glueing these together. */
 {
-  Component comp[32];
+  Component *comp;
   int ncomp;
-  char *canon;
+  char *canon, *comp_text;
   char *result;
   char *trans;
   int i;
@@ -70,16 +76,18 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
   canon = canon_lujvo(word);
   if (!canon) return "?";
   
-  split_into_comps(canon, comp, &ncomp);
+  comp_text = split_into_comps(canon, &comp, &ncomp);
   if (ncomp < 2) {
     /* Prevent infinite recursion */
+    Free(comp);
+    Free(comp_text);
     return NULL;
   }
   result = GETBUF();
   result[0] = 0;
   for (i=0; i<ncomp; i++) {
     int last = (i == (ncomp - 1));
-    xplace = comp[i].places[last ? place : 1];
+    xplace = place_in_comp(&comp[i], last ? place : 1);
     trans = adv_translate(comp[i].text, xplace, last ? TCX_NOUN : TCX_QUAL);
     if (i > 0) { strcat(result, "-"); }
     if (trans) {
@@ -89,20 +97,23 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
     }
   }
 
+  Free(comp);
+  Free(comp_text);
   return result;
 
 }/*}}}*/
 char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
 {
-  char *canon;
-  Component comp[32];
+  char *canon, *comp_text;
+  Component *comp;
   int n_comps;
   static char buffer[65536];
   char *trans;
   int i;
 
   canon = canon_lujvo(w);
-  split_into_comps(canon, comp, &n_comps);
+  if (!canon) return NULL;
+  comp_text = split_into_comps(canon, &comp, &n_comps);
   buffer[0] = 0;
   for (i=0; i<n_comps; i++) {
     int first = (i == 0);
@@ -115,6 +126,8 @@ char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
       strcat(buffer, "?");
     }
   }   
+  Free(comp);
+  Free(comp_text);
   return buffer;
 }/*}}}*/
 char * translate_unknown(char *w, int place, TransContext ctx)/*{{{*/
@@ -129,7 +142,7 @@ char * translate_unknown(char *w, int place, TransContext ctx)/*{{{*/
   char *ltrans;
   MorfType morf_type;
   struct morf_xtra xtra;
-  char *word_starts[64], **pws, **pwe;
+  char **word_starts, **pwe;
 
   if (strchr(w, '+')) {
     /* If word has already been 'canonicalised', the lujvo translator
@@ -137,9 +150,11 @@ char * translate_unknown(char *w, int place, TransContext ctx)/*{{{*/
     return translate_lujvo(w, place);
   }
 
-  pws = pwe = word_starts;
+  word_starts = new_array(char *, strlen(w) + 1);
+  pwe = word_starts;
 
   morf_type = morf_scan(w, &pwe, &xtra);
+  Free(word_starts);
 
   switch (morf_type) {
     case MT_BOGUS:
@@ -711,8 +726,8 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
   p = trans;
   while (*p) {
     if (*p == '%') {
-      int place = *++p - '0';
-      char context = *++p;
+      int place = *++p ? *p - '0' : 1;
+      char context = *p ? *++p : 0;
       TransContext ctx;
       switch (context) {
         case 'n': ctx = TCX_NOUN; break;
@@ -731,7 +746,7 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
       while (*r) {
         *q++ = *r++;
       }
-      ++p; /* onto the char beyond the context symbol */
+      if (*p) ++p; /* onto the char beyond the context symbol */
     } else {
       *q++ = *p++;
     }
@@ -739,20 +754,24 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
   *q = 0;
   return result;
 }/*}}}*/
-static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
+static char *split_into_comps(char *canon, Component **acomp, int *ncomp)/*{{{*/
 /*
   Take a string a+b+c and split it into an array of components separated by +
   signs.  If any components are se, te etc, bind them as place exchanges to the
-  following component.
+  following component.  The array of components and the string returned (which
+  holds their text) are to be freed by the caller.
   */
 {
   int i;
   int nc = 0;
-  char buffer[65536];
+  char *buffer;
+  Component *comp;
   char *p, *q;
   int place = 0;
 
-  strcpy(buffer, canon);
+  buffer = new_string(canon);
+  comp = new_array(Component, strlen(canon) + 1);
+  *acomp = comp;
   p = buffer;
   while (*p) p++;
   while (p > buffer) {
@@ -763,7 +782,7 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
     else if (!strcmp(q, "te")) { place = 3; }
     else if (!strcmp(q, "ve")) { place = 4; }
     else if (!strcmp(q, "xe")) { place = 5; }
-    if (place > 0) {
+    if (place > 0 && nc > 0) {
       int t = comp[0].places[1];
       comp[0].places[1] = comp[0].places[place];
       comp[0].places[place] = t;
@@ -777,12 +796,13 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
       }
       nc++;
       comp[0].pure_start = comp[0].start = (p - buffer);
-      strcpy(comp[0].text, q);
+      comp[0].text = q;
     }
-    *p = 0;
+    if (*p == '+') *p = 0;
   }
 
   *ncomp = nc;
+  return buffer;
 
 }/*}}}*/
 static char * lookup_template_match(int prec, int suffix, int gather, char *orig, Component *comp, int ncomp, int place, TransContext ctx)/*{{{*/
@@ -803,14 +823,14 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
     strcpy(generic, orig + cutg);
     strncpy(specific, orig, cuts);
     specific[cuts] = 0;
-    new_place = comp[ncomp-gather].places[place];
+    new_place = place_in_comp(&comp[ncomp-gather], place);
   } else {
     cutg = comp[gather].start + 1;
     cuts = cutg;
     strncpy(generic, orig, cutg);
     generic[cutg] = 0;
     strcpy(specific, orig + cuts);
-    new_place = comp[gather-1].places[place];
+    new_place = place_in_comp(&comp[gather-1], place);
   }
 
   sprintf(buffer, "*%1d%s%1d%s",
@@ -854,10 +874,10 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   provides.  Return NULL on no match.
   */
 {
-  char *canon;
+  char *canon, *comp_text;
   char *trans;
 
-  Component comp[32];
+  Component *comp;
   int ncomp;
 
   canon = canon_lujvo(w);
@@ -869,7 +889,9 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   if (!strchr(canon, '+')) return NULL;
 
   /* Split components into array. Work from the right. */
-  split_into_comps(canon, comp, &ncomp);
+  canon = new_string(canon); /* translating a component splits other words */
+  comp_text = split_into_comps(canon, &comp, &ncomp);
+  trans = NULL;
 
 #if 0
   {
@@ -886,8 +908,8 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   /* If there's only 1 component after conversions have been
      mapped onto it, do a place switch */
   if (ncomp == 1) {
-    int new_place = comp[0].places[place];
-    return adv_translate(comp[0].text, new_place, ctx);
+    int new_place = place_in_comp(&comp[0], place);
+    trans = adv_translate(comp[0].text, new_place, ctx);
 
   } else {
     /* Multiple components. Loop over precedence and try to match
@@ -899,11 +921,15 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
     for (prec = 5; prec >= 0; prec--) {
       for (suffix = 1; suffix >= 0; suffix--) {
         for (gather = 1; gather <= 2; gather++) {
+          if (!suffix && gather >= ncomp) {
+            trans = NULL; /* nothing would be left for the prefix to qualify */
+            break;
+          }
           trans = lookup_template_match(prec, suffix, gather, canon, comp, ncomp, place, ctx);
           if (trans) {
             if (strcmp(trans, "-")) {
               /* didn't match */
-              return trans;
+              goto done;
             }
           } else {
             break; /* out of gather loop */
@@ -911,9 +937,14 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
         }
       }
     }
+    trans = NULL;
   }
 
-  return NULL;
+done:
+  Free(comp);
+  Free(comp_text);
+  Free(canon);
+  return trans;
 
 }/*}}}*/
 char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
@@ -988,7 +1019,8 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       w1n[0] = 0;
     }
 
-    strcpy(result, fix_trans_in_context(buffer, trans, ctx, w1n, found_full_trans));
+    trans = fix_trans_in_context(buffer, trans, ctx, w1n, found_full_trans);
+    strcpy(result, trans ? trans : "??");
 
     return result;
 
-- 
2.43.0


From 77178c41a2918afa9d1657994dd0208b17d27706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:24 +0000
Subject: [PATCH 12/67] fix: long words, wide lines and many tags overflowed
 the fixed buffers of the block output

A line of -x -b output was kept in 512 bytes and at most 32 tags were kept
for a word.
---
 textblk.c | 223 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 139 insertions(+), 84 deletions(-)

diff --git a/textblk.c b/textblk.c
index 3769388..29b31a1 100644
--- a/textblk.c
+++ b/textblk.c
@@ -19,8 +19,6 @@
 extern int opt_output_width; /* Defined in main.c */
 static int max_width = MAX_WIDTH;
 
-#define BUFFER_SIZE 512
-
 typedef enum {
   ST_OPEN,
   ST_TEXT,
@@ -30,33 +28,78 @@ typedef enum {
 
 static States state;
 
-/* Largest number of tags supported on a single sumti */
-#define MAX_TAGS 32
+/* A piece of text that grows as required */
+typedef struct {
+  char *text; /* NULL until something is written */
+  int len;
+  int max;
+} Buffer;
 
 /* Variables to hold block being built */
 static int tags_used;
-static char tag_text[MAX_TAGS][BUFFER_SIZE];
-static char loj_text[BUFFER_SIZE];
-static char eng_text[BUFFER_SIZE];
+static Buffer *tag_text = NULL;
+static Buffer loj_text;
+static Buffer eng_text;
 
 /* Variables to hold line being constructed */
 static int current_width; /* The width of the line buffer currently occupied */
-static char tag_line[MAX_TAGS][BUFFER_SIZE];
+static Buffer *tag_line = NULL;
 static int line_tags_used;
-static char loj_line[BUFFER_SIZE];
-static char eng_line[BUFFER_SIZE];
+static Buffer loj_line;
+static Buffer eng_line;
+
+static int max_tags = 0; /* Size of tag_text and tag_line */
+
+static void clear(Buffer *b)/*{{{*/
+{
+  b->len = 0;
+}
+/*}}}*/
+static void append(Buffer *b, const char *src)/*{{{*/
+{
+  int n = strlen(src);
+  if (b->len + n + 1 > b->max) {
+    b->max = 2 * (b->len + n + 1);
+    b->text = grow_array(char, b->max, b->text);
+  }
+  strcpy(b->text + b->len, src);
+  b->len += n;
+}
+/*}}}*/
+static void append_number(Buffer *b, int n)/*{{{*/
+{
+  char buffer[32];
+  sprintf(buffer, "%d ", n);
+  append(b, buffer);
+}
+/*}}}*/
+static void need_tags(int n)/*{{{*/
+/* Make room for n rows of tags */
+{
+  Buffer empty = {NULL, 0, 0};
+  int i, m;
+  if (n <= max_tags) return;
+  m = n + 32;
+  tag_text = grow_array(Buffer, m, tag_text);
+  tag_line = grow_array(Buffer, m, tag_line);
+  for (i=max_tags; i<m; i++) {
+    tag_text[i] = tag_line[i] = empty;
+  }
+  max_tags = m;
+}
+/*}}}*/
 
 static void clear_line_buffer(void)/*{{{*/
 {
   int i;
 
-  for (i=0; i<MAX_TAGS; i++) {
-    tag_line[i][0] = 0;
+  for (i=0; i<max_tags; i++) {
+    clear(&tag_line[i]);
   }
   line_tags_used = 0;
 
-  loj_line[0] = 0;
-  eng_line[0] = 0;
+  clear(&loj_line);
+  clear(&eng_line);
 
   current_width = 0;
 }
@@ -66,11 +109,12 @@ static void initialise(void)/*{{{*/
   int i;
 
   state = ST_START;
-  for (i=0; i<MAX_TAGS; i++) {
-    tag_text[i][0] = 0;
+  need_tags(2);
+  for (i=0; i<max_tags; i++) {
+    clear(&tag_text[i]);
   }
-  loj_text[0] = 0;
-  eng_text[0] = 0;
+  clear(&loj_text);
+  clear(&eng_text);
   tags_used = 0;
 
   clear_line_buffer();
@@ -83,18 +127,23 @@ static void write_prologue(void)/*{{{*/
   return;
 }
 /*}}}*/
+static void put(Buffer *b)/*{{{*/
+{
+  if (b->len) fputs(b->text, stdout);
+}
+/*}}}*/
 static void flush_line(void)/*{{{*/
 {
   int i;
   
   if (current_width == 0) return;
 
-  fputs(loj_line, stdout);
+  put(&loj_line);
   fputs("\n", stdout);
-  fputs(eng_line, stdout);
+  put(&eng_line);
   fputs("\n", stdout);
   for (i=0; i<line_tags_used; i++) {
-    fputs(tag_line[i], stdout);
+    put(&tag_line[i]);
     fputs("\n", stdout);
   }
   fputs("\n", stdout);
@@ -121,20 +170,16 @@ static void clear_eols(void)/*{{{*/
     pending_eols = 0;
   }
 }/*}}}*/
-static void append_to_width(char *src, char *dbuf, int wid)/*{{{*/
-/* Append a string onto a buffer, and right pad with spaces to bring up
-  to a specific width */
+static void append_to_width(Buffer *src, Buffer *dest, int wid)/*{{{*/
+/* Append a string (if any) onto a buffer, and right pad with spaces to bring
+  up to a specific width */
 {
-  int len, toadd, i;
-  char buffer[BUFFER_SIZE];
-  len = strlen(src);
-  toadd = wid - len;
-  for (i=0; i<toadd; i++) {
-    buffer[i] = ' ';
+  int i;
+  i = src ? src->len : 0;
+  if (i) append(dest, src->text);
+  for (; i<wid; i++) {
+    append(dest, " ");
   }
-  buffer[toadd] = '\0';
-  strcat(dbuf, src);
-  strcat(dbuf, buffer);
 }/*}}}*/
 static void flush_block(void)/*{{{*/
 /* Push current block onto line buffer */
@@ -142,16 +187,16 @@ static void flush_block(void)/*{{{*/
   int i;
   int max_len, len;
 
-  if (!loj_text[0] && !eng_text[0] && (tags_used == 0)) return; /* Nothing to flush */
+  if (!loj_text.len && !eng_text.len && (tags_used == 0)) return; /* Nothing to flush */
 
   /* Calculate width of block */
   max_len = 0;
-  len = strlen(loj_text);
+  len = loj_text.len;
   if (len > max_len) max_len = len;
-  len = strlen(eng_text);
+  len = eng_text.len;
   if (len > max_len) max_len = len;
   for (i=0; i<tags_used; i++) {
-    len = strlen(tag_text[i]);
+    len = tag_text[i].len;
     if (len > max_len) max_len = len;
   }
   
@@ -159,20 +204,20 @@ static void flush_block(void)/*{{{*/
     flush_line();
   }
 
-  append_to_width(loj_text, loj_line, max_len);
-  append_to_width(eng_text, eng_line, max_len);
+  append_to_width(&loj_text, &loj_line, max_len);
+  append_to_width(&eng_text, &eng_line, max_len);
 
   for (i=0; i<tags_used; i++) {
     if (i >= line_tags_used) {
-      append_to_width("", tag_line[i], current_width);
+      append_to_width(NULL, &tag_line[i], current_width);
     }
-    append_to_width(tag_text[i], tag_line[i], max_len);
+    append_to_width(&tag_text[i], &tag_line[i], max_len);
   }
 
   /* Space-pad the tag lines on words that don't generate enough
      tags. */
   for (i=tags_used; i<line_tags_used; i++) {
-    append_to_width("", tag_line[i], max_len);
+    append_to_width(NULL, &tag_line[i], max_len);
   }
   
   current_width += max_len;
@@ -180,11 +225,11 @@ static void flush_block(void)/*{{{*/
   if (tags_used > line_tags_used) line_tags_used = tags_used;
 
   /* Clear the block buffers for the next lot */
-  for (i=0; i<MAX_TAGS; i++) {
-    tag_text[i][0] = 0;
+  for (i=0; i<max_tags; i++) {
+    clear(&tag_text[i]);
   }
-  loj_text[0] = 0;
-  eng_text[0] = 0;
+  clear(&loj_text);
+  clear(&eng_text);
 
   tags_used = 0;
   
@@ -202,6 +247,13 @@ static void write_epilog(void)/*{{{*/
   flush_line();
   return;
 }/*}}}*/
+static void put_bracket(Buffer *b, const char *brac)/*{{{*/
+{
+  clear(b);
+  append(b, brac);
+  append(b, " ");
+}
+/*}}}*/
 static void write_open_bracket(BracketType type, int subscript)/*{{{*/
 {
   char *brac;
@@ -209,7 +261,7 @@ static void write_open_bracket(BracketType type, int subscript)/*{{{*/
 
   if (type == BR_NONE) return;
 
-  if (loj_text[0] || eng_text[0] || tags_used > 0) {
+  if (loj_text.len || eng_text.len || tags_used > 0) {
     flush_block();
   }
 
@@ -249,16 +301,18 @@ static void write_open_bracket(BracketType type, int subscript)/*{{{*/
   }
 
   if (brac) {
-    sprintf(loj_text, "%s ", brac);
-    sprintf(eng_text, "%s ", brac);
-    sprintf(tag_text[0], "%s ", brac);
-    sprintf(tag_text[1], "%d ", subscript);
+    put_bracket(&loj_text, brac);
+    put_bracket(&eng_text, brac);
+    put_bracket(&tag_text[0], brac);
+    clear(&tag_text[1]);
+    append_number(&tag_text[1], subscript);
     tags_used = 2;
   } else if (brac1) {
-    sprintf(loj_text, "%s ", brac1);
-    sprintf(eng_text, "%s ", brac2);
-    sprintf(tag_text[0], "%s ", brac3);
-    sprintf(tag_text[1], "%d ", subscript);
+    put_bracket(&loj_text, brac1);
+    put_bracket(&eng_text, brac2);
+    put_bracket(&tag_text[0], brac3);
+    clear(&tag_text[1]);
+    append_number(&tag_text[1], subscript);
     tags_used = 2;
   }
 
@@ -273,7 +327,7 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
 
   if (type == BR_NONE) return;
 
-  if (loj_text[0] || eng_text[0]) {
+  if (loj_text.len || eng_text.len) {
     flush_block();
   }
 
@@ -311,16 +365,18 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
   }
 
   if (brac) {
-    sprintf(loj_text, "%s ", brac);
-    sprintf(eng_text, "%s ", brac);
-    sprintf(tag_text[0], "%s ", brac);
-    sprintf(tag_text[1], "%d ", subscript);
+    put_bracket(&loj_text, brac);
+    put_bracket(&eng_text, brac);
+    put_bracket(&tag_text[0], brac);
+    clear(&tag_text[1]);
+    append_number(&tag_text[1], subscript);
     tags_used = 2;
   } else if (brac1) {
-    sprintf(loj_text, "%s ", brac1);
-    sprintf(eng_text, "%s ", brac2);
-    sprintf(tag_text[0], "%s ", brac3);
-    sprintf(tag_text[1], "%d ", subscript);
+    put_bracket(&loj_text, brac1);
+    put_bracket(&eng_text, brac2);
+    put_bracket(&tag_text[0], brac3);
+    clear(&tag_text[1]);
+    append_number(&tag_text[1], subscript);
     tags_used = 2;
   }
 
@@ -330,24 +386,24 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
 static void write_lojban_text(char *text)/*{{{*/
 {
 
-  if (eng_text[0]) {
+  if (eng_text.len) {
     flush_block();
   }
 
   clear_eols();
 
-  strcat(loj_text, text);
-  strcat(loj_text, " ");
+  append(&loj_text, text);
+  append(&loj_text, " ");
 
 }/*}}}*/
 static void write_special(char *text)/*{{{*/
 {
   if (!strcmp(text, "$LEFTARROW")) {
-    strcat(eng_text, "<-");
+    append(&eng_text, "<-");
   } else if (!strcmp(text, "$OPENQUOTE")) {
-    strcat(eng_text, "\"");
+    append(&eng_text, "\"");
   } else if (!strcmp(text, "$CLOSEQUOTE")) {
-    strcat(eng_text,"\"");
+    append(&eng_text, "\"");
   }
 }/*}}}*/
 static void write_translation(char *text)/*{{{*/
@@ -355,8 +411,8 @@ static void write_translation(char *text)/*{{{*/
   if (text[0] == '$') {
     write_special(text);
   } else {
-    strcat(eng_text, text);
-    strcat(eng_text, " ");
+    append(&eng_text, text);
+    append(&eng_text, " ");
   }
 }
 /*}}}*/
@@ -366,7 +422,7 @@ static int first_tag;
 
 static void start_tags(void)/*{{{*/
 {
-  if (loj_text[0] || eng_text[0]) {
+  if (loj_text.len || eng_text.len) {
     flush_block();
   }
   clear_eols();
@@ -381,26 +437,25 @@ static void start_tag(void)/*{{{*/
   if (!first_tag) {
     tags_used++;
   }
+  need_tags(tags_used + 1);
   first_tag = 0;
 }
 /*}}}*/
 static void write_tag_text(char *brivla, char *place, char *trans, int brac)/*{{{*/
 {
-  char buffer1[65536], buffer2[65536];
-
-  sprintf(buffer1, "%s%s ", brivla, place);
-  if (brac) {
-    sprintf(buffer2, "(%s) ", trans);
-  } else {
-    sprintf(buffer2, "%s ", trans);
-  }
-  strcat(tag_text[tags_used], buffer1);
-  strcat(tag_text[tags_used], buffer2);
+  Buffer *b;
+
+  b = &tag_text[tags_used];
+  append(b, brivla);
+  append(b, place);
+  append(b, brac ? " (" : " ");
+  append(b, trans);
+  append(b, brac ? ") " : " ");
 }
 /*}}}*/
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  strcat(tag_text[tags_used], t);
+  append(&tag_text[tags_used], t);
 }
 /*}}}*/
 
-- 
2.43.0


From 8626acbca959ce36ff60b405ee3324392ad213cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:24 +0000
Subject: [PATCH 13/67] fix: HTML output looped for ever on &, < and >, and
 quoted text reached HTML and LaTeX unescaped

---
 htmlout.c  | 12 ++++++++----
 latex.c    | 47 +++++++++++++++++++++++++++++++++++++----------
 latex.h    |  1 +
 latexblk.c | 20 +++++++-------------
 4 files changed, 53 insertions(+), 27 deletions(-)

diff --git a/htmlout.c b/htmlout.c
index 5340420..409c1a6 100644
--- a/htmlout.c
+++ b/htmlout.c
@@ -233,14 +233,17 @@ make_htmlsafe(char *s)
       case '&':
         strcpy(q, "&amp;");
         q += 5;
+        p++;
         break;
       case '<':
         strcpy(q, "&lt;");
         q += 4;
+        p++;
         break;
       case '>':
         strcpy(q, "&gt;");
         q += 4;
+        p++;
         break;
       default:
         *q++ = *p++;
@@ -273,7 +276,7 @@ write_lojban_text(char *text)
       break;
   }
 
-  printf("<B>%s</B>", text);
+  printf("<B>%s</B>", make_htmlsafe(text));
 
   state = ST_TEXT;
 }
@@ -378,16 +381,17 @@ start_tag(void)
 static void
 write_tag_text(char *brivla, char *place, char *trans, int brac)
 {
+  printf("%s", make_htmlsafe(brivla));
   if (brac) {
-    printf("%s%s (%s)\n", brivla, place, make_htmlsafe(trans));
+    printf("%s (%s)\n", place, make_htmlsafe(trans));
   } else {
-    printf("%s%s %s\n", brivla, place, make_htmlsafe(trans));
+    printf("%s %s\n", place, make_htmlsafe(trans));
   }
 }
 
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  printf("%s", t);
+  printf("%s", make_htmlsafe(t));
 }
 /*}}}*/
 
diff --git a/latex.c b/latex.c
index 815e344..e830726 100644
--- a/latex.c
+++ b/latex.c
@@ -257,8 +257,8 @@ latex_write_close_bracket(BracketType type, int subscript)
   char *s
   ++++++++++++++++++++++++++++++*/
 
-char *
-make_texsafe(char *s)
+static char *
+escape_tex(char *s, int plain)
 {
   static char buf[65536];
   char *p, *q;
@@ -268,10 +268,6 @@ make_texsafe(char *s)
     switch (*p) {
       case '^':
       case '&':
-#if 0
-      case '\\':
-      case '$':
-#endif
       case '{':
       case '}':
       case '%':
@@ -280,6 +276,19 @@ make_texsafe(char *s)
         *q++ = '\\';
         *q++ = *p++;
         break;
+      case '$':
+        if (plain) *q++ = '\\';
+        *q++ = *p++;
+        break;
+      case '\\':
+        if (plain) {
+          strcpy(q, "\\textbackslash{}");
+          q += strlen(q);
+          p++;
+        } else {
+          *q++ = *p++;
+        }
+        break;
       case '<':
       case '>':
         *q++ = '$';
@@ -296,6 +305,23 @@ make_texsafe(char *s)
   return buf;
 }
 
+char *
+make_texsafe(char *s)
+{
+  return escape_tex(s, 0);
+}
+
+/*++++++++++++++++++++++++++++++
+  Likewise for Lojban words and quoted text, where every character stands for
+  itself.
+  ++++++++++++++++++++++++++++++*/
+
+char *
+make_texsafe_lojban(char *s)
+{
+  return escape_tex(s, 1);
+}
+
 
 /*++++++++++++++++++++++++++++++++++++++
   
@@ -317,7 +343,7 @@ write_lojban_text(char *text)
       break;
   }
 
-  printf("\\mbox{\\textbf{%s}\\/}", text);
+  printf("\\mbox{\\textbf{%s}\\/}", make_texsafe_lojban(text));
 
   state = ST_TEXT;
 }
@@ -411,16 +437,17 @@ start_tag(void)
 
 static void write_tag_text(char *brivla, char *place, char *trans, int brac)/*{{{*/
 {
+  printf("\\textsl{\\footnotesize{}%s", make_texsafe_lojban(brivla));
   if (brac) {
-    printf("\\textsl{\\footnotesize{}%s%s (%s)}\n", brivla, place, make_texsafe(trans));
+    printf("%s (%s)}\n", place, make_texsafe(trans));
   } else {
-    printf("\\textsl{\\footnotesize{}%s%s %s}\n", brivla, place, make_texsafe(trans));
+    printf("%s %s}\n", place, make_texsafe(trans));
   }
 }
 /*}}}*/
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  printf("\\textsl{\\footnotesize{}%s}\n", t);
+  printf("\\textsl{\\footnotesize{}%s}\n", make_texsafe_lojban(t));
 }
 /*}}}*/
 
diff --git a/latex.h b/latex.h
index 9eba44f..c41917a 100644
--- a/latex.h
+++ b/latex.h
@@ -13,6 +13,7 @@
 
 extern void latex_write_epilog(void);
 extern char *make_texsafe(char *s);
+extern char *make_texsafe_lojban(char *s);
 extern void latex_write_open_bracket(BracketType type, int subscript);
 extern void latex_write_close_bracket(BracketType type, int subscript);
 
diff --git a/latexblk.c b/latexblk.c
index 89aa936..389da74 100644
--- a/latexblk.c
+++ b/latexblk.c
@@ -314,7 +314,7 @@ write_lojban_text(char *text)
   clear_eols();
 
   strcat(loj_text, " ");
-  strcat(loj_text, text);
+  strcat(loj_text, make_texsafe_lojban(text));
 
 }
 
@@ -411,28 +411,22 @@ start_tag(void)
 static void
 write_tag_text(char *brivla, char *place, char *trans, int brac)
 {
-  char buffer[65536];
-
-  if (brac) {
-    sprintf(buffer, "%s%s (%s)", brivla, place, make_texsafe(trans));
-  } else {
-    sprintf(buffer, "%s%s %s", brivla, place, make_texsafe(trans));
-  }
   if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
     strcat(tag_text, "\n");
   }
-  strcat(tag_text, buffer);
+  strcat(tag_text, make_texsafe_lojban(brivla));
+  strcat(tag_text, place);
+  strcat(tag_text, brac ? " (" : " ");
+  strcat(tag_text, make_texsafe(trans));
+  if (brac) strcat(tag_text, ")");
 }
 
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  char buffer[65536];
-
-  sprintf(buffer, "%s", t);
   if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
     strcat(tag_text, "\n");
   }
-  strcat(tag_text, buffer);
+  strcat(tag_text, make_texsafe_lojban(t));
 }
 /*}}}*/
 
-- 
2.43.0


From 0b96d06485732143f929a1c3dc9617864b2e4e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:24 +0000
Subject: [PATCH 14/67] fix: long quotations, zei compounds, deep nesting and
 missing glosses overflowed or dereferenced null in the glosser

---
 output.c | 57 +++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/output.c b/output.c
index dad7fd5..5c47862 100644
--- a/output.c
+++ b/output.c
@@ -336,7 +336,7 @@ static void get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
 /*}}}*/
 static char * get_cmavo_text_inside_node(TreeNode *x)/*{{{*/
 {
-  static char buffer[1024];
+  static char buffer[65536];
   buffer[0] = 0;
   get_cmavo_text_inside_node_internal(x, buffer);
   return buffer;
@@ -358,7 +358,8 @@ static void translate_indicator (TreeNode *x, char *loj, char *eng)/*{{{*/
 {
   char *trans;
   int negated;
-  char buffer[65536];
+  static char buffer[65536];
+  char *degree;
   XCaiIndicator *xci;
 
   if (prop_neg_indicator(x, NO)) {
@@ -369,35 +370,38 @@ static void translate_indicator (TreeNode *x, char *loj, char *eng)/*{{{*/
 
   xci = prop_cai_indicator(x, NO);
   if (xci) {
+    degree = NULL;
     switch (xci->code) {
       case CC_CAI:
-        strcpy(buffer, translate("cai"));
+        degree = "cai";
         break;
       case CC_SAI:
-        strcpy(buffer, translate("sai"));
+        degree = "sai";
         break;
       case CC_RUhE:
-        strcpy(buffer, translate("ru'e"));
+        degree = "ru'e";
         break;
       case CC_CUhI:
-        strcpy(buffer, translate("cu'i"));
+        degree = "cu'i";
         break;
       case CC_RUhENAI:
-        strcpy(buffer, translate("ru'enai"));
+        degree = "ru'enai";
         break;
       case CC_SAINAI:
-        strcpy(buffer, translate("sainai"));
+        degree = "sainai";
         break;
       case CC_CAINAI:
-        strcpy(buffer, translate("cainai"));
+        degree = "cainai";
         break;
       case CC_PEI:
-        strcpy(buffer, translate("pei"));
+        degree = "pei";
         break;
       case CC_PEINAI:
-        strcpy(buffer, translate("peinai"));
+        degree = "peinai";
         break;
     }
+    trans = degree ? translate(degree) : NULL;
+    strcpy(buffer, trans ? trans : "?");
     strcat(buffer, " ");
   } else {
     buffer[0] = 0;
@@ -713,6 +717,20 @@ static void attempt_translation(char *loj, char *eng)/*{{{*/
   }
 }
 /*}}}*/
+static void insert_number(char *dest, char *trans, int number)/*{{{*/
+/* Copy a gloss, replacing %d by the number of a bracket pair */
+{
+  while (*trans) {
+    if (trans[0] == '%' && trans[1] == 'd') {
+      dest += sprintf(dest, "%d", number);
+      trans += 2;
+    } else {
+      *dest++ = *trans++;
+    }
+  }
+  *dest = 0;
+}
+/*}}}*/
 static void get_lojban_word_and_translation (TreeNode *x, char *loj, char *eng)/*{{{*/
 {
 
@@ -903,7 +921,7 @@ static void output_term(TreeNode *x, WhatToShow what)/*{{{*/
               char *trans, transbuf[1024];
               (drv->start_tag)();
               trans = adv_translate("me", tag->pos, TCX_TAG);
-              sprintf(transbuf, trans, tag->me.sumti->data.nonterm.number);
+              insert_number(transbuf, trans, tag->me.sumti->data.nonterm.number);
               sprintf(tp, "%d..", tag->pos);
               (drv->write_tag_text)("me", tp, transbuf, YES);
             }
@@ -920,7 +938,7 @@ static void output_term(TreeNode *x, WhatToShow what)/*{{{*/
               (drv->start_tag)();
               trans = adv_translate(cmavo, tag->pos, TCX_TAG);
               if (trans) {
-                sprintf(transbuf, trans, norl_code);
+                insert_number(transbuf, trans, norl_code);
               } else {
                 transbuf[0] = 0;
               }
@@ -1187,8 +1205,8 @@ static void output_fore_or_afterthought(TreeNode *x, WhatToShow what)/*{{{*/
 static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
 {
   char *cluster, *trans;
-  char localtrans[65536];
-  char lojbuf[65536], lojbuf2[65536];
+  char *localtrans;
+  static char lojbuf[65536], lojbuf2[65536];
   int i, n;
   TreeNode *c;
   struct nonterm *nt;
@@ -1248,7 +1266,7 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
   }
 
   if (trans) {
-    strcpy(localtrans, trans);
+    localtrans = new_string(trans);
     if ((what == SHOW_LOJBAN) ||
         (what == SHOW_LOJBAN_AND_INDICATORS) ||
         (what == SHOW_BOTH)) {
@@ -1264,6 +1282,7 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
         (what == SHOW_BOTH)) {
       (drv->translation)(localtrans);
     }
+    Free(localtrans);
 
   } else {
     nt = &x->data.nonterm;
@@ -1277,7 +1296,9 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
 /*}}}*/
 static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
 {
-  char loj[1024], eng[1024];
+  /* Quotations and zei compounds may be long.  These are not needed across the
+     recursive calls. */
+  static char loj[65536], eng[65536], lojbuf[65536];
   int i, n;
 
   if (x->type == N_NONTERM) {/*{{{*/
@@ -1440,8 +1461,6 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
 /*}}}*/
   } else {/*{{{*/
     /* Terminal token */
-    char lojbuf[1024];
-
     lojbuf[0] = 0;
 
     get_lojban_word_and_translation(x, loj, eng);
-- 
2.43.0


From 9d7b00762bdeaf15ef05b65e5bf77e0c7146a8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:50 +0000
Subject: [PATCH 15/67] fix: long words and parentheses overflowed cmafihe's
 buffers

---
 cm_gather.c | 14 +++++++-------
 cm_main.c   |  4 ++++
 cm_output.c | 31 +++++++++++++++++++++++++------
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/cm_gather.c b/cm_gather.c
index f083068..5b0d36a 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -135,10 +135,13 @@ try_cmavo_fragment(node *p)
 
 static char *
 translate_selmao(char *x) {
-  char buffer[64];
+  char *buffer, *result;
+  buffer = new_array(char, strlen(x) + 2);
   strcpy(buffer, "+");
   strcat(buffer, x);
-  return translate(buffer);
+  result = translate(buffer);
+  free(buffer);
+  return result;
 }
 
 /* ================================================== */
@@ -193,7 +196,7 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 #endif
         do {
           e--;
-        } while (strchr("aeiuo'", *e));
+        } while (e > pbuf && strchr("aeiuo'", *e));
       }
     }
     if (bufout[0]) {
@@ -222,7 +225,6 @@ do_trans(void)
 {
   node *p;
   char *t, *x;
-  char buf[32];
 
   for (p=head.next; p!=&head; p=p->next) {
     switch (p->type) {
@@ -233,9 +235,7 @@ do_trans(void)
         if (t) {
           p->trans = new_string(t);
 
-          strcpy(buf, "+");
-          strcat(buf, x);
-          t = translate(buf);
+          t = translate_selmao(x);
           if (t) {
             p->selmao = new_string(t);
           } else {
diff --git a/cm_main.c b/cm_main.c
index e929ab0..0a41cfc 100644
--- a/cm_main.c
+++ b/cm_main.c
@@ -39,6 +39,10 @@ main (int argc, char **argv)
       ofmt = OF_PLIST;
 #endif 
     } else if (!strcmp(*argv, "-w")) {
+      if (argc < 2) {
+        fprintf(stderr, "The -w option requires a width\n");
+        exit(1);
+      }
       ++argv, --argc;
       width = atoi(*argv);
     } else if (!strcmp(*argv, "-v")) {
diff --git a/cm_output.c b/cm_output.c
index 5880bd5..1f9e2ee 100644
--- a/cm_output.c
+++ b/cm_output.c
@@ -19,17 +19,34 @@ int width;
 
 /* ================================================== */
 
-#define BUFFER_SIZE 512
-
 #ifdef PLIST
 static proplist_t dictionary = NULL;
 #endif
 
-static char lines[3][BUFFER_SIZE];
+static char *lines[3];
+static int line_size = 0; /* bytes allocated for each of the lines */
 static int width_used;
 
 /* ================================================== */
 
+static void
+need_width(int n)
+{
+  int i;
+  if (n + 1 > line_size) {
+    for (i=0; i<3; i++) {
+      lines[i] = realloc(lines[i], 2*n + 1);
+      if (!lines[i]) {
+        fprintf(stderr, "Out of memory\n");
+        exit(1);
+      }
+    }
+    line_size = 2*n + 1;
+  }
+}
+
+/* ================================================== */
+
 static void
 block_newline(void)
 {
@@ -78,9 +95,10 @@ do_block(const char *a1, const char *a2, const char *a3)
     block_newline();
   }
 
-  append_content(&lines[0][0], a1, l1, ml+1);
-  append_content(&lines[1][0], a2, l2, ml+1);
-  append_content(&lines[2][0], a3, l3, ml+1);
+  need_width(width_used + ml + 1);
+  append_content(lines[0], a1, l1, ml+1);
+  append_content(lines[1], a2, l2, ml+1);
+  append_content(lines[2], a3, l3, ml+1);
   
   width_used += (ml + 1);
   return;
@@ -108,6 +126,7 @@ start_output(void)
     case OF_TEXT:
       break;
     case OF_TEXTBLK:
+      need_width(80);
       lines[0][0] = lines[1][0] = lines[2][0] = 0;
       width_used = 0;
       break;
-- 
2.43.0


From 6068ab240130dcca0edb2ee2f58ac7ee85cec71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:53 +0000
Subject: [PATCH 16/67] fix: -w without a width dereferenced null

---
 main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.c b/main.c
index 0ab9ae2..e373cf4 100644
--- a/main.c
+++ b/main.c
@@ -210,6 +210,10 @@ main (int argc, char **argv)
         opt_output_width = atoi(*argv + 2);
       } else {
         /* Get next argument */
+        if (argc < 2) {
+          fprintf(stderr, "The -w option requires a width\n");
+          exit(1);
+        }
         --argc, ++argv;
         opt_output_width = atoi(*argv);
       }
-- 
2.43.0


From bbc6e5c740f58001c943e022362d01ea5608fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:53 +0000
Subject: [PATCH 17/67] fix: a truncated or damaged dictionary was read past
 its end

---
 dictaccs.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/dictaccs.c b/dictaccs.c
index f2caff0..0eb1e81 100644
--- a/dictaccs.c
+++ b/dictaccs.c
@@ -67,6 +67,17 @@ get_long(FILE *in)
   return (a << 24) | (b << 16) | (c << 8) | (d << 0);
 }
 
+/*++++++++++++++++++++++++++++++++++++++
+  Give up on a dictionary which isn't one, or is cut short.
+  ++++++++++++++++++++++++++++++++++++++*/
+
+static void
+damaged(void)
+{
+  fprintf(stderr, "The dictionary file is damaged\n");
+  exit(1);
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Read the database to build the transaction list.
 
@@ -86,10 +97,20 @@ read_database(FILE *in)
   int i, len;
 
   struct stat sb;
-  off_t offset;
+  off_t offset, end;
+  unsigned long count;
   char *dict_base = NULL;
 
-  n_entries = get_long(in);
+  if (fstat(fileno(in), &sb) < 0) {
+    fprintf(stderr, "Could not stat the dictionary file\n");
+    exit(1);
+  }
+
+  count = get_long(in);
+  /* Each entry has 2 length bytes and 2 null terminators */
+  if (sb.st_size < 4 || count > (unsigned long) (sb.st_size - 4) / 4) damaged();
+  n_entries = count;
+  if (n_entries == 0) return;
   entries = new_array(Entry, n_entries);
   dict = new_array(Keyval, n_entries);
 
@@ -100,12 +121,12 @@ read_database(FILE *in)
     entries[i].vlen = len;
   }
 
-  if (fstat(fileno(in), &sb) < 0) {
-    fprintf(stderr, "Could not stat the dictionary file\n");
-    exit(1);
-  }
-
   offset = ftell(in);
+  end = offset;
+  for (i=0; i<n_entries; i++) {
+    end += entries[i].klen + entries[i].vlen + 2;
+  }
+  if (end > sb.st_size) damaged();
 
 #ifdef HAVE_MMAP
 
@@ -145,6 +166,7 @@ read_database(FILE *in)
       dict[i].key = dict[i-1].val + entries[i-1].vlen + 1; /* Allow for null termination */
     }
     dict[i].val = dict[i].key + entries[i].klen + 1; /* Allow for null termination */
+    if (dict[i].key[entries[i].klen] || dict[i].val[entries[i].vlen]) damaged();
   }
 
   Free(entries);
-- 
2.43.0


From d5aba7721c0d4b455a75c015b095bc83a4b0f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:02 +0000
Subject: [PATCH 18/67] fix: the documented adjective glosses (brivla1a) were
 never used for qualifiers

smujajgau.1 gives the suffixes n, v, a and t and the dictionaries define 13
such entries, but only the undocumented suffix q was looked up, and smujajgau
did not drop it when the place was redefined.
---
 smujajgau.c | 8 ++++----
 translate.c | 9 +++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 2937bcb..b8817a7 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -7,7 +7,7 @@
   lojban:english
   
   and compiling them into a sorted database.  If the lojban is of the
-  form X1 (i.e. ends in a digit), the entries X1n, X1v, X1a and X1t
+  form X1 (i.e. ends in a digit), the entries X1n, X1v, X1a, X1q and X1t
   are deleted; they may be redefined by a later entry in the source
   dictionary.
 
@@ -404,7 +404,7 @@ read_database(FILE *in)
 
 /*++++++++++++++++++++++++++++++++++++++
   If we define an entry of the form abcde1, delete any entries of the form
-  abcde1[nvat].  These have to be redefined after, if required.
+  abcde1[nvaqt].  These have to be redefined after, if required.
 
   char *s
   ++++++++++++++++++++++++++++++++++++++*/
@@ -412,9 +412,9 @@ read_database(FILE *in)
 static void
 preen(char *s) {
   char buffer[65536];
-  char *suffixes[] = {"n", "v", "a", "t"};
+  char *suffixes[] = {"n", "v", "a", "q", "t"};
   int i;
-  for (i=0; i<4; i++) {
+  for (i=0; i<5; i++) {
     strcpy(buffer, s);
     strcat(buffer, suffixes[i]);
     add_deletion(buffer);
diff --git a/translate.c b/translate.c
index 72603c4..74800c7 100644
--- a/translate.c
+++ b/translate.c
@@ -836,6 +836,10 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
   sprintf(buffer, "*%1d%s%1d%s",
           prec, generic, new_place, ctx_suf_as_string[(int) ctx]);
   trans = translate(buffer);
+  if (!trans && ctx == TCX_QUAL) {
+    sprintf(buffer, "*%1d%s%1da", prec, generic, new_place);
+    trans = translate(buffer);
+  }
   if (trans) {
     got_full_trans = 1;
   } else {
@@ -969,6 +973,11 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
   /* Try looking up the explicit gloss asked for */
   sprintf(buffer, "%s%1d%c", w, place, ctx_suffix[ctx]);
   trans = translate(buffer);
+  if (!trans && ctx == TCX_QUAL) {
+    /* The adjective form is the documented name of this context */
+    sprintf(buffer, "%s%1da", w, place);
+    trans = translate(buffer);
+  }
   if (trans) {
     found_full_trans = 1;
   }
-- 
2.43.0


From e2356d3944e69ff8434a5942155c4b31e8b3eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:16 +0000
Subject: [PATCH 19/67] fix: smujajgau cut the last letter of a file without
 final newline and misread empty keys, long entries and damaged databases

---
 smujajgau.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index b8817a7..77dee05 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -113,6 +113,13 @@ add_defn(char *key, char *val)
 {
   Trans *new_trans;
   Link *new_link;
+
+  /* The lengths are written as single bytes. */
+  if (strlen(key) > 255 || strlen(val) > 255) {
+    fprintf(stderr, "Entry for [%s] is too long, ignored\n", key);
+    return;
+  }
+
   new_trans = new(Trans);
   new_link = new(Link);
 
@@ -381,9 +388,19 @@ read_database(FILE *in)
   int n_entries;
   Entry *entries;
   int i, len;
+  long size;
+  unsigned long count;
   char key[65536], val[65536];
 
-  n_entries = get_long(in);
+  fseek(in, 0, SEEK_END);
+  size = ftell(in);
+  rewind(in);
+  count = get_long(in);
+  if (size < 4 || count > (size - 4) / 4) {
+    fprintf(stderr, "The existing database is damaged\n");
+    exit(1);
+  }
+  n_entries = count;
   entries = new_array(Entry, n_entries);
   for (i=0; i<n_entries; i++) {
     len = getc(in);
@@ -392,8 +409,11 @@ read_database(FILE *in)
     entries[i].vlen = len;
   }
   for (i=0; i<n_entries; i++) {
-    fread(key, sizeof(char), entries[i].klen + 1, in); /* Read null termination */
-    fread(val, sizeof(char), entries[i].vlen + 1, in); /* Read null termination .. */
+    if (fread(key, sizeof(char), entries[i].klen + 1, in) != entries[i].klen + 1 || /* Read null termination */
+        fread(val, sizeof(char), entries[i].vlen + 1, in) != entries[i].vlen + 1) { /* Read null termination .. */
+      fprintf(stderr, "The existing database is damaged\n");
+      exit(1);
+    }
     key[entries[i].klen] = 0; /* ... but set it anyway for safety */
     val[entries[i].vlen] = 0;
     add_defn(key, val);
@@ -438,8 +458,7 @@ static void
 handle_mapping(char *src, char *dest)
 {
   int len = strlen(src);
-  int defines_place = isdigit(src[len-1]);
-  int specific = isdigit(src[len-2]);
+  int defines_place = (len > 0) && isdigit((unsigned char) src[len-1]);
   char buffer[65536], buffer2[65536], buffer3[65536];
   char *canon;
 
@@ -473,12 +492,12 @@ handle_mapping(char *src, char *dest)
      
      */
 
-  if (isalpha(src[0])) {
+  if (isalpha((unsigned char) src[0])) {
     char *p = src;
     int baselen;
 
     /* Work out length of basic lujvo/gismu etc */
-    while (isalpha(*p)) p++;
+    while (isalpha((unsigned char) *p)) p++;
     baselen = p - src;
 
     if ((baselen >= 6) && defines_place) {
@@ -517,9 +536,10 @@ do_file(FILE *f)
   char *p, *q, *r;
 
   while (fgets(line, sizeof(line), f)) {
-    line[strlen(line)-1] = 0;
+    p = strchr(line, '\n');
+    if (p) *p = 0; /* the last line may have no newline */
     p = line;
-    while (*p && isspace(*p)) p++;
+    while (*p && isspace((unsigned char) *p)) p++;
     if (!*p) {
       /* Line is blank */
       continue;
-- 
2.43.0


From a9bc51e7ec0898e69da3cb29fe4216bbe1bb5537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:59 +0000
Subject: [PATCH 20/67] fix: jvocuhadju overflowed its word table on a
 component of more than five letters

---
 jvocuhadju.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jvocuhadju.c b/jvocuhadju.c
index c86c399..ae476fe 100644
--- a/jvocuhadju.c
+++ b/jvocuhadju.c
@@ -717,10 +717,15 @@ static void makelujvo(char **tanru) {
 
   i=0;
   while (*tanru) {
+    if (strlen(*tanru) >= sizeof(t[i])) {
+      /* Longer than any word having rafsi */
+      fprintf(stderr, "Cannot use component [%s] in forming lujvo.\n", *tanru);
+      exit(1);
+    }
     strcpy(t[i], *tanru);
     for (j=0; ; j++) {
       if (!t[i][j]) break;
-      t[i][j] = tolower(t[i][j]);
+      t[i][j] = tolower((unsigned char) t[i][j]);
       if (t[i][j] == 'h') t[i][j] = '\'';
     }
     index = lookup_gismu(t[i]);
-- 
2.43.0


From 3d390035115573a49ebc3b63937db7cdc5984c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:59 +0000
Subject: [PATCH 21/67] fix: is_valid_lujvo used final_ccv uninitialised

---
 lujvofns.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lujvofns.c b/lujvofns.c
index 5206244..6062520 100644
--- a/lujvofns.c
+++ b/lujvofns.c
@@ -255,6 +255,7 @@ is_valid_lujvo(char *t)
   
   start_cvv = 0;
   had_rn_hyphen = 0;
+  final_ccv = 0;
   nrafsi = 0;
 
   for (;;) {
-- 
2.43.0


From f96ed00662049396e783faec3130e3968dbe0172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:35 +0000
Subject: [PATCH 22/67] fix: dfasyn crashed or looped on empty, self-referring
 and long-named descriptions

---
 dfasyn/expr.c | 13 ++++++++++++-
 dfasyn/n2d.c  | 49 ++++++++++++++++++++++++++++++++-----------------
 2 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/dfasyn/expr.c b/dfasyn/expr.c
index cdc27a3..dde0878 100644
--- a/dfasyn/expr.c
+++ b/dfasyn/expr.c
@@ -35,6 +35,7 @@ struct Expr {
 struct Symbol {
   char *name;
   int is_expr;
+  int in_use; /* Set whilst its expression is being evaluated */
   union {
     Expr *e;
     int val;
@@ -213,6 +214,7 @@ static Symbol *  find_symbol_or_create(Evaluator *x, char *sym_name)/*{{{*/
   s = new(Symbol);
   add_new_symbol(x,s);
   s->is_expr = 0; /* Until proven otherwise */
+  s->in_use = 0;
   s->name = new_string(sym_name);
   s->data.val = 0;
   return s;
@@ -334,7 +336,15 @@ static int eval(Evaluator *x, Expr *e)/*{{{*/
           e->data.symbol.s = s = find_symbol_or_create(x, e->data.symbol.name);
         }
         if (s->is_expr) {
-          return eval(x, s->data.e);
+          int result;
+          if (s->in_use) {
+            fprintf(stderr, "Symbol '%s' is defined in terms of itself\n", s->name);
+            exit(2);
+          }
+          s->in_use = 1;
+          result = eval(x, s->data.e);
+          s->in_use = 0;
+          return result;
         } else {
           return s->data.val;
         }
@@ -356,6 +366,7 @@ int evaluate_result(Evaluator *x, char **result, int *result_early)/*{{{*/
     if (eval(x, x->results[i].e)) {
       if (x->any_results_so_far) {
         *result = NULL;
+        if (result_early) *result_early = 0;
         return 0;
       } else {
         x->any_results_so_far = 1;
diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index 453ef3c..d89b429 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -411,12 +411,18 @@ static void add_transition(State *curstate, char *str, char *destination)/*{{{*/
    recursive */
 {
   struct Abbrev *abbrev;
+  static int depth = 0;
   abbrev = (str) ? lookup_abbrev(str, USE_OLD_MUST_EXIST) : NULL;
   if (abbrev) {
     int i;
+    if (++depth > nabbrevs) {
+      fprintf(stderr, "Abbreviation '%s' is defined in terms of itself\n", str);
+      exit(1);
+    }
     for (i=0; i<abbrev->nrhs; i++) {
       add_transition(curstate, abbrev->rhs[i], destination);
     }
+    --depth;
   } else {
     Translist *tl;
     tl = new(Translist);
@@ -486,6 +492,13 @@ InlineBlockList *add_inline_block(InlineBlockList *existing, InlineBlock *nib)/*
   return result;
 }
 /*}}}*/
+static char *join_names(char *a, char *b)/*{{{*/
+{
+  char *result = new_array(char, strlen(a) + strlen(b) + 2);
+  sprintf(result, "%s.%s", a, b);
+  return result;
+}
+/*}}}*/
 State * add_inline_block_transitions(Block *curblock, State *addtostate, InlineBlockList *ibl)/*{{{*/
 {
   char result_name[1024];
@@ -497,21 +510,22 @@ State * add_inline_block_transitions(Block *curblock, State *addtostate, InlineB
   
   while (ibl) {
     InlineBlock *ib;
-    char block_name[1024];
-    char input_name[1024];
-    char output_name[1024];
+    char *block_name;
+    char *input_name;
+    char *output_name;
     State *output_state;
     
     ib = ibl->ib;
     if (ib) {
+      block_name = new_array(char, strlen(ib->type) + 32);
       sprintf(block_name, "%s#%d", ib->type, curblock->subblockcount++);
       instantiate_block(curblock, ib->type, block_name);
-      sprintf(input_name, "%s.%s", block_name, ib->in);
-      sprintf(output_name, "%s.%s", block_name, ib->out);
+      input_name = join_names(block_name, ib->in);
+      output_name = join_names(block_name, ib->out);
       output_state = lookup_state(curblock, output_name, CREATE_OR_USE_OLD);
 
       /* Now plumb in the input and output transitions */
-      add_transition(addtostate, NULL, new_string(input_name));
+      add_transition(addtostate, NULL, input_name);
       add_transition(output_state, NULL, new_string(result_name));
     } else {
       /* Epsilon transition between input and output */
@@ -528,28 +542,24 @@ State * add_inline_block_transitions(Block *curblock, State *addtostate, InlineB
 void instantiate_block(Block *curblock, char *block_name, char *instance_name)/*{{{*/
 {
   Block *master = lookup_block(block_name, USE_OLD_MUST_EXIST);
-  char namebuf[1024];
   int i;
+  if (master == curblock) {
+    fprintf(stderr, "Block '%s' cannot contain an instance of itself\n", block_name);
+    exit(1);
+  }
   for (i=0; i<master->nstates; i++) {
     State *s = master->states[i];
     State *new_state;
     Translist *tl;
     Stringlist *sl, *ex;
     
-    strcpy(namebuf, instance_name);
-    strcat(namebuf, ".");
-    strcat(namebuf, s->name);
-    
     /* In perverse circumstances, we might already have a state called this */
-    new_state = lookup_state(curblock, namebuf, CREATE_OR_USE_OLD);
+    new_state = lookup_state(curblock, join_names(instance_name, s->name), CREATE_OR_USE_OLD);
     
     for (tl=s->transitions; tl; tl=tl->next) {
       Translist *new_tl = new(Translist);
       new_tl->token = tl->token;
-      strcpy(namebuf, instance_name);
-      strcat(namebuf, ".");
-      strcat(namebuf, tl->ds_name);
-      new_tl->ds_name = new_string(namebuf);
+      new_tl->ds_name = join_names(instance_name, tl->ds_name);
       new_tl->ds_ref = NULL;
       new_tl->next = new_state->transitions;
       new_state->transitions = new_tl;
@@ -1037,7 +1047,8 @@ static void build_dfa(Block *b, int start_index)/*{{{*/
   while (next_to_do < ndfa) {
 
     int t; /* token index */
-    int j0, j0_5, j1, j, mask, k, m;
+    int j0, j0_5, j1, j, k, m;
+    unsigned long mask;
     int idx;
     unsigned long *current_nfas;
     unsigned long block_bitmap;
@@ -1531,6 +1542,10 @@ int main (int argc, char **argv)
   if (verbose) fprintf(stderr, "\n");
 
   start_state = get_curstate(); /* The last state to be current in the input file is the entry state of the NFA */
+  if (!start_state) {
+    fprintf(stderr, "The input does not define any state, exiting\n");
+    exit(1);
+  }
   main_block = start_state->parent;
   if (verbose) fprintf(stderr, "Computing epsilon closure...\n");
   generate_epsilon_closure(main_block);
-- 
2.43.0


From 5eca99bd8c052fe77430f2aa0d098d76be505053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:35 +0000
Subject: [PATCH 23/67] fix: dfasyn's generated next_state function did not
 compile without a prefix

---
 dfasyn/n2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index d89b429..95629e0 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -1247,7 +1247,7 @@ static void write_next_state_function_uncompressed(int Nt)/*{{{*/
     fprintf(output, "  return %s_trans[%d*current_state + next_token];\n", prefix, Nt); 
     fprintf(output, "}\n");
   } else {
-    fprintf(output, "int next_state(int current_state, int token) {\n");
+    fprintf(output, "int next_state(int current_state, int next_token) {\n");
     fprintf(output, "  if (next_token < 0 || next_token >= %d) return -1;\n", Nt);
     fprintf(output, "  return trans[%d*current_state + next_token];\n", Nt); 
     fprintf(output, "}\n");
@@ -1324,7 +1324,7 @@ static void write_next_state_function_compressed(void)/*{{{*/
     fprintf(output, "return %s_nextstate[m];\n", prefix);
     fprintf(output, "}\n");
   } else {
-    fprintf(output, "int next_state(int current_state, int token) {\n");
+    fprintf(output, "int next_state(int current_state, int next_token) {\n");
     fprintf(output, "int h, l, m, xm;\n");
     fprintf(output, "while (current_state >= 0) {\n");
     fprintf(output, "  l = base[current_state], h = base[current_state+1];\n");
-- 
2.43.0


From cf18c08c7e98bad7fe164b40cc85465fb96a6fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:26 +0000
Subject: [PATCH 24/67] fix: dfasyn's minimiser merged non-accepting states
 with different attributes

---
 dfasyn/compdfa.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dfasyn/compdfa.c b/dfasyn/compdfa.c
index c13290c..5a64964 100644
--- a/dfasyn/compdfa.c
+++ b/dfasyn/compdfa.c
@@ -147,7 +147,7 @@ static int initial_compare(const void *a, const void *b)/*{{{*/
 {
   Castderef (a, const DFANode *, aa);
   Castderef (b, const DFANode *, bb);
-  int status;
+  int status = 0;
   int aok, bok;
 
   if (!aa->result && bb->result) {
@@ -155,10 +155,8 @@ static int initial_compare(const void *a, const void *b)/*{{{*/
     return -1;
   } else if (aa->result && !bb->result) {
     return +1;
-  } else if (!aa->result && !bb->result) {
-    return 0;
   } else {
-    status = strcmp(aa->result, bb->result);
+    if (aa->result) status = strcmp(aa->result, bb->result);
     if      (status < 0) return -1;
     else if (status > 0) return +1;
     else {
-- 
2.43.0


From 1f4b7fecfcf971a327e3771516e19dcd9e8861c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:41 +0000
Subject: [PATCH 25/67] fix: a broken erasure reached the parser as an
 uninitialised token

---
 lex2.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lex2.c b/lex2.c
index 0f1d60c..a8c4a32 100644
--- a/lex2.c
+++ b/lex2.c
@@ -1055,6 +1055,7 @@ yylex1(TokenType *res)
       case N_GARBAGE:
       case N_BROKEN_ERASURE:
         /* Needs its own parser token value */
+        res->yylval = next_tok;
         res->value = GARBAGE;
         return;
         break;
-- 
2.43.0


From 70b184605639651da8cb05b3ab8cebefea6e4a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:32 +0000
Subject: [PATCH 26/67] fix: connected tenses with a free modifier after the
 connective were refused

---
 rpc2x.y | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpc2x.y b/rpc2x.y
index 1a04cd3..4820bbd 100644
--- a/rpc2x.y
+++ b/rpc2x.y
@@ -1915,6 +1915,8 @@ ctag :                             complex_tense_modal
      | stag joik_opt_kebo          complex_tense_modal
      | stag jek_opt_kebo  free_seq complex_tense_modal
      | stag jek_opt_kebo           complex_tense_modal
+     | stag joik_opt_kebo free_seq simple_tense_modal
+     | stag jek_opt_kebo  free_seq simple_tense_modal
      ;
 
 
-- 
2.43.0


From 16807e7913da144fd8709f41b5acf27cb8358fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:42 +0000
Subject: [PATCH 27/67] fix: an interval without brackets took the opening
 bracket of the next one

---
 categ.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/categ.c b/categ.c
index 40a045e..b893259 100644
--- a/categ.c
+++ b/categ.c
@@ -160,14 +160,16 @@ static void categorize_joik(TreeNode *head)/*{{{*/
 
     } else if (cmtest(x, BIhI)) {
       /* Backup over any SE preceding and insert PRIVATE_START_JOIK */
+      int has_gaho; /* GAhO only follows when there is one before */
       y = x->prev;
       if (cmtest(y, SE)) y = y->prev;
-      if (cmtest(y, GAhO)) y = y->prev;
+      has_gaho = cmtest(y, GAhO);
+      if (has_gaho) y = y->prev;
       insert_marker_after(y, PRIVATE_START_JOIK, "PRIVATE_START_JOIK");
       
       y = x->next;
       if (cmtest(y, NAI)) y = y->next;
-      if (cmtest(y, GAhO)) y = y->next;
+      if (has_gaho && cmtest(y, GAhO)) y = y->next;
       insert_marker_before(y, PRIVATE_END_JOIK, "PRIVATE_END_JOIK");
     }
   }
-- 
2.43.0


From 98021786c4fc023afa965b77a232774d8f437fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:12 +0000
Subject: [PATCH 28/67] fix: bridi tails joined by gi'e bo were grouped to the
 left when a shared vau followed

bnf.300 has bridi-tail-3 [gihek [stag] BO # bridi-tail-2 tail-terms]; the rule used
allowed a joined tail on the left too, so ungrammatical texts were accepted.
---
 rpc2x.y |  4 ++--
 terms.c | 17 ++++++++---------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/rpc2x.y b/rpc2x.y
index 4820bbd..6226b53 100644
--- a/rpc2x.y
+++ b/rpc2x.y
@@ -692,8 +692,8 @@ bridi-tail-2<52> = bridi-tail-3 [gihek [stag] BO # bridi-tail-2 tail-terms]
 */
 
 bridi_tail_2 : bridi_tail_3
-             | bridi_tail_2 gihek_stag_bo bridi_tail_2 tail_terms
-             | bridi_tail_2 gihek_stag_bo bridi_tail_2 /* ET VAU */
+             | bridi_tail_3 gihek_stag_bo bridi_tail_2 tail_terms
+             | bridi_tail_3 gihek_stag_bo bridi_tail_2 /* ET VAU */
              ;
 
 gihek_stag_bo : PRIVATE_GIHEK_BO gihek stag BO free_seq
diff --git a/terms.c b/terms.c
index a9a7805..96b5eae 100644
--- a/terms.c
+++ b/terms.c
@@ -1217,14 +1217,13 @@ static void process_bridi_tail_3(TreeNode *bt3, TermVector *pre, TermVector *pos
 static void process_bridi_tail_2(TreeNode *bt2, TermVector *pre, TermVector *post)/*{{{*/
 {
 
-  TreeNode *bt3, *bt2a, *bt2b, *tt, *ttt; /* The children */
+  TreeNode *bt3, *bt2b, *tt, *ttt; /* The children */
   struct nonterm *nt;
   int nc;
 
   /* The structure of a bridi_tail_2 is, for this fn's purposes,
 
-     bridi_tail_3
-   | bridi_tail_2 [CONNECTIVE bridi_tail_2 [tail_terms]]
+     bridi_tail_3 [CONNECTIVE bridi_tail_2 [tail_terms]]
 
      */
 
@@ -1238,9 +1237,9 @@ static void process_bridi_tail_2(TreeNode *bt2, TermVector *pre, TermVector *pos
   } else {
     TermVector new_post, tail_terms;
 
-    bt2a = find_nth_child(bt2, 1, BRIDI_TAIL_2);
-    assert(bt2a);
-    bt2b = find_nth_child(bt2, 2, BRIDI_TAIL_2);
+    bt3 = find_nth_child(bt2, 1, BRIDI_TAIL_3);
+    assert(bt3);
+    bt2b = find_nth_child(bt2, 1, BRIDI_TAIL_2);
     assert(bt2b);
 
     tt = find_nth_child(bt2, 1, TAIL_TERMS);
@@ -1249,14 +1248,14 @@ static void process_bridi_tail_2(TreeNode *bt2, TermVector *pre, TermVector *pos
       if (ttt) {
         tv_build(&tail_terms, ttt);
         tv_catenate(&tail_terms, post, &new_post);
-        process_bridi_tail_2(bt2a, pre, &new_post);
+        process_bridi_tail_3(bt3, pre, &new_post);
         process_bridi_tail_2(bt2b, pre, &new_post);
       } else {
-        process_bridi_tail_2(bt2a, pre, post);
+        process_bridi_tail_3(bt3, pre, post);
         process_bridi_tail_2(bt2b, pre, post);
       }
     } else {
-      process_bridi_tail_2(bt2a, pre, post);
+      process_bridi_tail_3(bt3, pre, post);
       process_bridi_tail_2(bt2b, pre, post);
     }
   }
-- 
2.43.0


From 8e2a548b0f68d9292be11a7a925aa5c5e237e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:16 +0000
Subject: [PATCH 29/67] fix: the nai after a lone cai was not placed in the
 parse tree

---
 tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree.c b/tree.c
index 32fbf76..a4abd0a 100644
--- a/tree.c
+++ b/tree.c
@@ -173,6 +173,7 @@ print_tree(TreeNode *x, int indent)
             }
           } else if (cmavo_table[code].selmao == CAI) {
             if (prop_neg_indicator(x, NO)) {
+              show_indent(indent);
               printf("CMAVO : nai [NAI]\n");
             }
           }
-- 
2.43.0


From 022328fa2102c3771c2bcc930bd5e30a34889da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:16 +0000
Subject: [PATCH 30/67] fix: la'o quotations were displayed as zoi in the
 bracketed text

---
 tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.c b/tree.c
index a4abd0a..e4e2747 100644
--- a/tree.c
+++ b/tree.c
@@ -444,7 +444,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
 
       case N_ZOI:
         SPACE_B4_TEXT;
-        printf("zoi %s %s %s", x->data.zoi.term, x->data.zoi.text, x->data.zoi.term);
+        printf("%s %s %s %s", x->data.zoi.form, x->data.zoi.term, x->data.zoi.text, x->data.zoi.term);
         break;
         
       case N_ZO:
-- 
2.43.0


From 5bfff7fd8ee941a46fa9634f368d4f9645aba7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:16 +0000
Subject: [PATCH 31/67] fix: the ke'e elided with vau after gi'e ke was not
 shown by -ie and not required by -re

---
 rpc2x.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc2x.y b/rpc2x.y
index 6226b53..830c540 100644
--- a/rpc2x.y
+++ b/rpc2x.y
@@ -669,7 +669,7 @@ bridi_tail : bridi_tail_1
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail KEhE          tail_terms
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail KEhE          /* ET VAU */
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail /* ET KEhE */ tail_terms
-           | bridi_tail_1 gihek_stag_ke KE          bridi_tail               /* ET VAU */
+           | bridi_tail_1 gihek_stag_ke KE          bridi_tail /* ET KEhE */ /* ET VAU */
            ;
 
 gihek_stag_ke : PRIVATE_GIHEK_KE gihek stag
-- 
2.43.0


From 6d3a98ab6c06e9e63cfdd973e573a24f71dd811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 32/67] fix: -se proposed to leave out the ku of na ku

---
 elide.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/elide.c b/elide.c
index bb8ca0d..55acb1c 100644
--- a/elide.c
+++ b/elide.c
@@ -169,6 +169,13 @@ token_is_elidable(YYSTYPE tok, int *is_boiveho)
   
   if (!tok) return 0; /* end of string */
   if (tok->type != N_CMAVO) return 0;
+
+  /* The KU of NA KU is part of the construction, not a terminator */
+  if ((tok->data.cmavo.selmao == KU) &&
+      (tok->prev->type == N_CMAVO) &&
+      (tok->prev->data.cmavo.selmao == NA)) {
+    return 0;
+  }
   
   switch (cmavo_table[tok->data.cmavo.code].code) {
     case CM_BEhO:
-- 
2.43.0


From fe3e09158fa4d15483f6066a05a5799d7d87bbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 33/67] fix: -se proposed to leave out terminators emphasized
 by ba'e

---
 elide.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elide.c b/elide.c
index 55acb1c..db69aea 100644
--- a/elide.c
+++ b/elide.c
@@ -170,6 +170,9 @@ token_is_elidable(YYSTYPE tok, int *is_boiveho)
   if (!tok) return 0; /* end of string */
   if (tok->type != N_CMAVO) return 0;
 
+  /* Leaving out a word with ba'e attached would emphasize another word */
+  if (tok->bahe) return 0;
+
   /* The KU of NA KU is part of the construction, not a terminator */
   if ((tok->data.cmavo.selmao == KU) &&
       (tok->prev->type == N_CMAVO) &&
-- 
2.43.0


From f8defa277b19cab5c9e547bf99dd598ca0fde22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 34/67] fix: -se proposed omissions that joined the words on
 both sides into one construction

---
 elide.c | 104 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 60 insertions(+), 44 deletions(-)

diff --git a/elide.c b/elide.c
index db69aea..07ef2ae 100644
--- a/elide.c
+++ b/elide.c
@@ -71,9 +71,10 @@ struct {
   0, 0, 0, 0, NULL, NULL, NULL
 };
 
-/* Flag indicating that previous token was PA prior to tokens being read into the tokbuf. */ 
-static int prev_token_was_pa_etc = 0;
-static int cur_token_was_pa_etc = 0;
+/* Token that was read right before the ones in tokbuf, and the last of those
+   in tokbuf. */
+static int prev_token = 0;
+static int last_token = 0;
 
 /*++++++++++++++++++++++++++++++++++++++
   Called to set a flag bit
@@ -284,6 +285,49 @@ token_is_number_marker(TreeNode *x)
   return result;
 }
 
+/*++++++++++++++++++++++++++++++++++++++
+  Detect whether categ.c would have joined the word before the elidables to the
+  word after them, if none of the elidables had been present
+  ++++++++++++++++++++++++++++++++++++++*/
+
+static int
+would_be_joined(int before, int after, int after_is_number_marker)
+{
+  switch (before) {
+    case PA:
+    case BU:
+    case BY:
+    case LAU:
+    case TEI:
+    case FOI:
+      return (after_is_number_marker ||
+              (after == MAI) || (after == MOI) || (after == ROI));
+    case PRIVATE_END_TENSE:
+      return ((after == PRIVATE_START_TENSE) || (after == PRIVATE_START_GEK) ||
+              (after == GI));
+    case PRIVATE_END_JOIK:
+    case PRIVATE_END_JEK:
+    case A:
+    case GIhA:
+    case NAI:
+      return ((after == GI) || (after == BO) || (after == KE) ||
+              (after == PRIVATE_START_TENSE));
+    case I:
+      return ((after == BO) || (after == PRIVATE_START_TENSE) ||
+              (after == PRIVATE_START_JEK) || (after == PRIVATE_START_JOIK) ||
+              (after == PRIVATE_JEK_BO) || (after == PRIVATE_JEK_KE) ||
+              (after == PRIVATE_JOIK_BO) || (after == PRIVATE_JOIK_KE));
+    case NA:
+      return ((after == PRIVATE_START_JEK) || (after == PRIVATE_START_EK) ||
+              (after == PRIVATE_START_GIHEK) || (after == KU) ||
+              (after == PRIVATE_JEK_BO) || (after == PRIVATE_JEK_KE) ||
+              (after == PRIVATE_EK_BO) || (after == PRIVATE_EK_KE) ||
+              (after == PRIVATE_GIHEK_BO) || (after == PRIVATE_GIHEK_KE));
+    default:
+      return 0;
+  }
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Emit the sequence of elidable cmavo + line/col no. information
   ++++++++++++++++++++++++++++++++++++++*/
@@ -482,24 +526,16 @@ elide_trace_shift(int yystate, int yychar)
       tokbuf.n--;
     }
 
-#if 0
-    printf("bv0=%d ptp=%d tnm[n-1]=%d\n",
-           tokbuf.flags[0].boiveho,
-           prev_token_was_pa_etc,
-           tokbuf.flags[tokbuf.n - 1].tok_is_number_marker);
-#endif
-
-    /* If non-elidable was a marker that precedes numbers, see whether first
-       elidable in the buffer is boi or ve'o, and whether this was preceded by
-       a token that would merge with the number if all the intervening
-       elidables were discarded.  If so, insert a synthetic conflict by
-       pretending that the marker is shiftable prior to the boi/ve'o.  This
-       will provide the required reporting later. */
-    if (tokbuf.flags[0].boiveho &&
-        prev_token_was_pa_etc &&
-        tokbuf.flags[tokbuf.n - 1].tok_is_number_marker) {
-        
-     set_conflict(tokbuf.n - 1, 0);
+    /* See whether the word before the elidables would merge with the
+       non-elidable if all the intervening elidables were discarded (e.g. two
+       numbers or two tenses.)  If so, insert a synthetic conflict by
+       pretending that the non-elidable is shiftable prior to the first
+       elidable.  This will provide the required reporting later. */
+    for (i=1; i<tokbuf.n; i++) {
+      if (would_be_joined(prev_token, tokbuf.buf[i].value,
+                          tokbuf.flags[i].tok_is_number_marker)) {
+        set_conflict(i, 0);
+      }
     }
 
     if (show_elisions_verbose && (tokbuf.n > 1)) {
@@ -652,11 +688,6 @@ yylex(void)
   } /* else ... */
 
 
-  /* Shift along the register to track whether we got a PA or a letter cmavo
-     right before starting a block of elidables */
-
-  prev_token_was_pa_etc = cur_token_was_pa_etc;
-
   /* Otherwise, build up a buffer of arbitrarily many elidables with a single
      non-elidable at the end.  Drain this buffer into the bison layer,
      performing shift-ability checks on the later tokens as each bison state is
@@ -671,6 +702,7 @@ yylex(void)
     return result;
     
   } else {
+    prev_token = last_token;
     tokbuf.rp = tokbuf.n = 0;
     do {
       if (tokbuf.n == tokbuf.max) {
@@ -688,6 +720,8 @@ yylex(void)
       tokbuf.flags[old_n].tok_is_number_marker = token_is_number_marker(tokbuf.buf[old_n].yylval);
     } while (is_elidable);
 
+    last_token = tokbuf.buf[tokbuf.n - 1].value;
+
     clear_conflicts();
 
 #if 0
@@ -700,24 +734,6 @@ yylex(void)
     tokbuf.sp = tokbuf.rp;
     ++tokbuf.rp;
 
-    if (tokbuf.rp == tokbuf.n) {
-      /* Single token, or non-elidable at end of tokbuf */
-      switch (result) {
-        case PA:
-        case BU:
-        case BY:
-        case LAU:
-        case TEI:
-        case FOI:
-          cur_token_was_pa_etc = 1;
-          break;
-        default:
-          cur_token_was_pa_etc = 0;
-          break;
-
-      }
-    }
-    
     return result;
 
   } 
-- 
2.43.0


From 09983b90289282f61c8d85aeff6ce63b541cdc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 35/67] fix: -se proposed omitting a word before an ordinal,
 which then attached elsewhere

---
 categ.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/categ.c b/categ.c
index b893259..26680f2 100644
--- a/categ.c
+++ b/categ.c
@@ -812,7 +812,6 @@ static void mark_cmavo_before_free(TreeNode *head)/*{{{*/
           case SOI:
           case COI:
           case DOI:
-          case PRIVATE_NUMBER_MAI:
           case TO:
           case XI:
             x->data.cmavo.followed_by_free = 1;
@@ -821,6 +820,8 @@ static void mark_cmavo_before_free(TreeNode *head)/*{{{*/
             x->data.cmavo.followed_by_free = 0;
             break;
         }
+      } else if (mkrtest(y, PRIVATE_NUMBER_MAI)) {
+        x->data.cmavo.followed_by_free = 1;
       } else {
         x->data.cmavo.followed_by_free = 0;
       }
-- 
2.43.0


From e331d22f1ea360aefa2491cff023bb89b8b8eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 36/67] fix: a syntax error named a later word with -se, and an
 internal marker instead of a word otherwise [P11]

---
 elide.c     |  2 ++
 functions.h |  1 +
 lex2.c      | 30 +++++++++++++++++++++++++-----
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/elide.c b/elide.c
index 07ef2ae..89cc00c 100644
--- a/elide.c
+++ b/elide.c
@@ -696,6 +696,7 @@ yylex(void)
   if (tokbuf.rp < tokbuf.n) {
     yylval = tokbuf.buf[tokbuf.rp].yylval;
     yylloc = tokbuf.buf[tokbuf.rp].yylloc;
+    set_lookahead_tok(yylval);
     result = tokbuf.buf[tokbuf.rp].value;
     tokbuf.sp = tokbuf.rp; /* Bison never has more than 1 lookahead token (!) */
     ++tokbuf.rp;
@@ -730,6 +731,7 @@ yylex(void)
 
     yylval = tokbuf.buf[0].yylval;
     yylloc = tokbuf.buf[0].yylloc;
+    set_lookahead_tok(yylval);
     result = tokbuf.buf[0].value;
     tokbuf.sp = tokbuf.rp;
     ++tokbuf.rp;
diff --git a/functions.h b/functions.h
index 2d39981..c513989 100644
--- a/functions.h
+++ b/functions.h
@@ -109,6 +109,7 @@ void preprocess_tokens(void);
 void error_advance(int code);
 int yylex(void);
 void print_last_toks(void);
+void set_lookahead_tok(TreeNode *x);
 
 /* Return dynamically allocated string */ 
 char *build_string_from_nodes(TreeNode *start, TreeNode *end);
diff --git a/lex2.c b/lex2.c
index a8c4a32..04576ba 100644
--- a/lex2.c
+++ b/lex2.c
@@ -38,6 +38,9 @@ int last_tok_column;
 static TreeNode toks = {&toks,&toks};
 static TreeNode *next_tok;
 
+/* The token last given to the parser.  (With -se, next_tok can be ahead of it.) */
+static TreeNode *lookahead_tok;
+
 /*++++++++++++++++++++++++++++++++++++++
   Initialise the token list.
   ++++++++++++++++++++++++++++++++++++++*/
@@ -1029,7 +1032,7 @@ yylex1(TokenType *res)
     return;
   }
 
-  next_tok = next_tok->next;
+  lookahead_tok = next_tok = next_tok->next;
 
   if (next_tok == &toks) { /* End of file condition */
     returned_EOF = 1;
@@ -1201,6 +1204,18 @@ print_token_details(TreeNode *x)
   }
 }
 
+/*++++++++++++++++++++++++++++++++++++++
+  Called by the buffering in elide.c when it passes a token on to the parser.
+
+  TreeNode *x  The token, null at the end of the text.
+  ++++++++++++++++++++++++++++++++++++++*/
+
+void
+set_lookahead_tok(TreeNode *x)
+{
+  lookahead_tok = x ? x : next_tok;
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Print the last N tokens parsed
   ++++++++++++++++++++++++++++++++++++++*/
@@ -1212,14 +1227,19 @@ print_last_toks(void)
   int i;
 
   fprintf(stderr, "Misparsed token :\n");
-  if (next_tok != &toks) {
-    print_token_details(next_tok);
-  } else {
+  x = lookahead_tok;
+  while (x != &toks) {
+    print_token_details(x);
+    /* A marker is no word of the text : show the word it stands before too */
+    if (x->type != N_MARKER) break;
+    x = x->next;
+  }
+  if (x == &toks) {
     fprintf(stderr, "  <End of text>\n");
   }
 
   fprintf(stderr, "Latest successfully parsed tokens :\n");
-  for (x = next_tok->prev, i = 0;
+  for (x = lookahead_tok->prev, i = 0;
        i < 8 && x != &toks;
        i++, x = x->prev) {
 
-- 
2.43.0


From 063f5acc9fca249c711833c984db24115ce0f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:04 +0000
Subject: [PATCH 37/67] fix: the word after a digit or colon was reported at
 the digit's position [P11]

---
 lex1.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lex1.c b/lex1.c
index 4f1462f..800dd98 100644
--- a/lex1.c
+++ b/lex1.c
@@ -437,11 +437,13 @@ parse_file(FILE *f)
         SET_START;
         strcpy(buffer, numbers[(int)(c-'0')]);
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else if (c == ':') {
         CLOSE_TOKEN;
         SET_START;
         strcpy(buffer, "pi'e");
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else {               
         switch (c) {
           case ' ':
-- 
2.43.0


From 48c221054e9278fa54cce3c1ea723b5fffd6be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:45 +0000
Subject: [PATCH 38/67] fix: the selbri missing before gi'e was reported at a
 wrong position [P11]

---
 categ.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/categ.c b/categ.c
index 26680f2..5ac4082 100644
--- a/categ.c
+++ b/categ.c
@@ -23,8 +23,9 @@ static void insert_marker_after(TreeNode *where, int toktype, char *tokname)/*{{
   TreeNode *marker;
   marker = new_node();
   marker->type = N_MARKER;
-  marker->start_line = where->start_line;
-  marker->start_column = where->start_column;
+  /* The marker belongs to the word it stands before */
+  marker->start_line = where->next->start_line;
+  marker->start_column = where->next->start_column;
   marker->data.marker.tok = toktype;
   marker->data.marker.text = new_string(tokname);
   marker->prev = where;
-- 
2.43.0


From 8c464b6873307e713b987184a364055335440cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:45 +0000
Subject: [PATCH 39/67] fix: with -re a syntax error was reported at line 0
 column 0 [P11]

---
 elide.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/elide.c b/elide.c
index 89cc00c..b245f5c 100644
--- a/elide.c
+++ b/elide.c
@@ -673,6 +673,7 @@ yylex(void)
 {
   extern YYSTYPE yylval;
   extern YYLTYPE yylloc;
+  extern YYLTYPE full_yylloc; /* for the -re parser */
   int result;
   int old_n;
   int is_elidable;
@@ -683,7 +684,7 @@ yylex(void)
     TokenType tok;
     yylex1(&tok);
     yylval = tok.yylval;
-    yylloc = tok.yylloc;
+    full_yylloc = yylloc = tok.yylloc;
     return tok.value;
   } /* else ... */
 
@@ -695,7 +696,7 @@ yylex(void)
 
   if (tokbuf.rp < tokbuf.n) {
     yylval = tokbuf.buf[tokbuf.rp].yylval;
-    yylloc = tokbuf.buf[tokbuf.rp].yylloc;
+    full_yylloc = yylloc = tokbuf.buf[tokbuf.rp].yylloc;
     set_lookahead_tok(yylval);
     result = tokbuf.buf[tokbuf.rp].value;
     tokbuf.sp = tokbuf.rp; /* Bison never has more than 1 lookahead token (!) */
@@ -730,7 +731,7 @@ yylex(void)
 #endif
 
     yylval = tokbuf.buf[0].yylval;
-    yylloc = tokbuf.buf[0].yylloc;
+    full_yylloc = yylloc = tokbuf.buf[0].yylloc;
     set_lookahead_tok(yylval);
     result = tokbuf.buf[0].value;
     tokbuf.sp = tokbuf.rp;
-- 
2.43.0


From 283da1f5069197474387defbca208f6e3d75a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:45 +0000
Subject: [PATCH 40/67] fix: a name that neither holds nor breaks up (bylan)
 was split into words all the same [P04]

---
 lex1.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lex1.c b/lex1.c
index 800dd98..0719fdc 100644
--- a/lex1.c
+++ b/lex1.c
@@ -180,7 +180,7 @@ add_brivla_token(char *x, int start_line, int start_column, enum BrivlaType briv
 
 static void
 process_cmene(char *buf, int start_line, int start_column,
-              int is_bad, int can_split, char *ladoi, char *tail)
+              int is_bad, char *ladoi, char *tail)
 {
   TreeNode *tok;
 
@@ -340,9 +340,16 @@ process_word(char *buf, int start_line, int start_column)
       add_brivla_token(*pwe, start_line, column, BVT_FUIVLA4);
       break;
     case MT_CMENE:
+      if (mx.u.cmene.is_bad && !mx.u.cmene.can_split) {
+        /* e.g. bylan : no name, and it doesn't break up into other words
+           either */
+        fprintf(stderr, "Unrecognizable word '%s' at line %d column %d\n",
+                buf, start_line, column);
+        had_bad_tokens = 1;
+        break;
+      }
       process_cmene(buf, start_line, column,
                     mx.u.cmene.is_bad,
-                    mx.u.cmene.can_split,
                     mx.u.cmene.ladoi,
                     mx.u.cmene.tail);
       break;
-- 
2.43.0


From 660f8424cd05ecfee10498885402b779bad8bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:48 +0000
Subject: [PATCH 41/67] fix: digits and colons in text quoted by zoi were
 replaced by Lojban words [P06]

---
 lex1.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lex1.c b/lex1.c
index 0719fdc..6d58c43 100644
--- a/lex1.c
+++ b/lex1.c
@@ -437,7 +437,7 @@ parse_file(FILE *f)
       
     } else {
       
-      if (c>='0' && c<='9') {
+      if (c>='0' && c<='9' && !zoi_data) {
         static char *numbers[] = {"no", "pa", "re", "ci", "vo",
                                   "mu", "xa", "ze", "bi", "so"};
         CLOSE_TOKEN;
@@ -445,7 +445,7 @@ parse_file(FILE *f)
         strcpy(buffer, numbers[(int)(c-'0')]);
         process_word(buffer, start_line, start_column);
         new_tok = 1;
-      } else if (c == ':') {
+      } else if (c == ':' && !zoi_data) {
         CLOSE_TOKEN;
         SET_START;
         strcpy(buffer, "pi'e");
-- 
2.43.0


From 459ebb88477b9622cb29e3ada58d99d9e7525086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:48 +0000
Subject: [PATCH 42/67] fix: a ba'e before a word followed by bu was dropped
 [P06]

---
 lex2.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lex2.c b/lex2.c
index 04576ba..57901a1 100644
--- a/lex2.c
+++ b/lex2.c
@@ -585,7 +585,7 @@ handle_bahe(void)
 static void
 handle_bu(void)
 {
-  TreeNode *x, *y, *nt;
+  TreeNode *x, *y, *z, *nt;
 
   for (x = toks.next;
        x != &toks;
@@ -668,6 +668,10 @@ handle_bu(void)
           break;
       }
 
+      /* Keep the BAhEs standing before y */
+      for (z = x; z->bahe; z = z->bahe) ;
+      z->bahe = y->bahe;
+
       /* Unlink y from the chain */
       y->prev->next = x;
       x->prev = y->prev;
-- 
2.43.0


From a9c3766b3ef6c458cdf65903e25cd08770c85620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:48 +0000
Subject: [PATCH 43/67] fix: the nai of ui cu'i nai, and nai or cai after y or
 cai, were dropped [P06]

---
 lex2.c   | 13 ++++++++-----
 nodes.h  |  1 +
 output.c |  4 ++++
 tree.c   |  6 ++++++
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/lex2.c b/lex2.c
index 57901a1..79c95df 100644
--- a/lex2.c
+++ b/lex2.c
@@ -753,7 +753,8 @@ pair_off_indicator_suffixes(void)
 
     y = x->next;
 
-    if (is_indicator_cmavo(x)) {
+    if (x->type == N_CMAVO &&
+        (x->data.cmavo.selmao == UI || x->data.cmavo.selmao == CAI)) {
       if ((y != &toks) &&
           (y->type == N_CMAVO) &&
           (y->data.cmavo.selmao == NAI)) {
@@ -773,8 +774,9 @@ pair_off_indicator_suffixes(void)
 
       z = nt;
       
-      /* See if CAI follows */
-      if ((z != &toks) &&
+      /* See if CAI follows UI */
+      if ((x->data.cmavo.selmao == UI) &&
+          (z != &toks) &&
           (z->type == N_CMAVO) &&
           (z->data.cmavo.selmao == CAI)) {
         char *tok;
@@ -816,8 +818,9 @@ pair_off_indicator_suffixes(void)
               xci->code = CC_RUhENAI;
               break;
             case CC_CUhI:
-              /* Nothing to do, this is the neutral case so you
-                 can't invert it */
+              /* This is the neutral case so you can't really invert it,
+                 but the NAI is still to be shown */
+              xci->code = CC_CUhINAI;
               break;
             case CC_PEI:
               xci->code = CC_PEINAI;
diff --git a/nodes.h b/nodes.h
index 0ae7430..178af13 100644
--- a/nodes.h
+++ b/nodes.h
@@ -282,6 +282,7 @@ typedef struct x_caiindicator {
     CC_SAI,
     CC_RUhE,
     CC_CUhI,
+    CC_CUhINAI,
     CC_RUhENAI,
     CC_SAINAI,
     CC_CAINAI,
diff --git a/output.c b/output.c
index 5c47862..92d1a5d 100644
--- a/output.c
+++ b/output.c
@@ -382,6 +382,7 @@ static void translate_indicator (TreeNode *x, char *loj, char *eng)/*{{{*/
         degree = "ru'e";
         break;
       case CC_CUhI:
+      case CC_CUhINAI:
         degree = "cu'i";
         break;
       case CC_RUhENAI:
@@ -435,6 +436,9 @@ static void translate_indicator (TreeNode *x, char *loj, char *eng)/*{{{*/
       case CC_CUhI:
         strcat(loj, " cu'i");
         break;
+      case CC_CUhINAI:
+        strcat(loj, " cu'inai");
+        break;
       case CC_RUhENAI:
         strcat(loj, " ru'enai");
         break;
diff --git a/tree.c b/tree.c
index e4e2747..0681407 100644
--- a/tree.c
+++ b/tree.c
@@ -146,6 +146,11 @@ print_tree(TreeNode *x, int indent)
                 case CC_CUhI:
                   show_indent(indent);
                   printf("CMAVO : cu'i [CAI]\n"); break;
+                case CC_CUhINAI:
+                  show_indent(indent);
+                  printf("CMAVO : cu'i [CAI]\n");
+                  show_indent(indent);
+                  printf("CMAVO : nai [NAI]\n"); break;
                 case CC_PEI:
                   show_indent(indent);
                   printf("CMAVO : pei [CAI]\n"); break;
@@ -397,6 +402,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
                 case CC_SAI: printf(" sai"); break;
                 case CC_RUhE: printf(" ru'e"); break;
                 case CC_CUhI: printf(" cu'i"); break;
+                case CC_CUhINAI: printf(" cu'i nai"); break;
                 case CC_PEI: printf(" pei"); break;
                 case CC_CAINAI: printf(" cai nai"); break;
                 case CC_SAINAI: printf(" sai nai"); break;
-- 
2.43.0


From 054b150f3b7bc920fb2bf4a0cc3ea73d83551ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:11 +0000
Subject: [PATCH 44/67] fix: a lujvo with an apostrophe in the dictionary was
 not found inside a longer lujvo [P18]

---
 smujajgau.c | 2 +-
 translate.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 77dee05..a1b84d1 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -497,7 +497,7 @@ handle_mapping(char *src, char *dest)
     int baselen;
 
     /* Work out length of basic lujvo/gismu etc */
-    while (isalpha((unsigned char) *p)) p++;
+    while (isalpha((unsigned char) *p) || *p == '\'') p++;
     baselen = p - src;
 
     if ((baselen >= 6) && defines_place) {
diff --git a/translate.c b/translate.c
index 74800c7..836b0e6 100644
--- a/translate.c
+++ b/translate.c
@@ -1003,7 +1003,7 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       int pos;
       p = buffer;
       q = trans+1;
-      while (isalpha(*q)) {
+      while (isalpha(*q) || *q == '\'') {
         *p++ = *q++;
       }
       *p = 0;
-- 
2.43.0


From 18b929235f0e468bab672af28c72eeb6e6d381de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:11 +0000
Subject: [PATCH 45/67] fix: smujajgau took fu'ivla for lujvo and defined them
 under components that do not exist [P15]

---
 smujajgau.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index a1b84d1..67b3be6 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -504,7 +504,7 @@ handle_mapping(char *src, char *dest)
       strncpy(buffer, src, baselen);
       buffer[baselen] = 0;
       canon = canon_lujvo(buffer);
-      if (canon) {
+      if (canon && !strchr(canon, '?')) { /* all of it is made of rafsi */
         int lencanon = strlen(canon);
         strcpy(buffer2, canon);
         buffer2[lencanon++] = src[len-1];
-- 
2.43.0


From 083a4e5a557e3d067ae654054a114afcb210eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:11 +0000
Subject: [PATCH 46/67] fix: lujvo patterns of the dictionary were applied to
 fu'ivla [P18]

---
 translate.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/translate.c b/translate.c
index 836b0e6..db552e8 100644
--- a/translate.c
+++ b/translate.c
@@ -872,6 +872,20 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
     return NULL;
   }
 }/*}}}*/
+static int is_lujvo(char *w)/*{{{*/
+{
+  MorfType type;
+  struct morf_xtra xtra;
+  char **word_starts, **pwe;
+
+  if (strchr(w, '+')) return 1; /* already taken apart */
+
+  word_starts = new_array(char *, strlen(w) + 1);
+  pwe = word_starts;
+  type = morf_scan(w, &pwe, &xtra);
+  Free(word_starts);
+  return (type == MT_LUJVO);
+}/*}}}*/
 static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
 /*
   Try to match the Lojban word with various standard forms which the dictionary
@@ -887,7 +901,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   canon = canon_lujvo(w);
 
   /* Bail out now if it's not a lujvo that can be split up. */
-  if (!canon) return NULL;
+  if (!canon || !is_lujvo(w)) return NULL;
 
   /* If it's not got a '+' in it, give up too. */
   if (!strchr(canon, '+')) return NULL;
-- 
2.43.0


From 103a50247c3e73b656eb84a10699ff1779855934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:11 +0000
Subject: [PATCH 47/67] fix: a word written with a syllable comma was taken for
 another, unknown word when glossing [P14]

---
 canonluj.c  | 12 ++++++++++++
 translate.c |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/canonluj.c b/canonluj.c
index 83033db..222dddd 100644
--- a/canonluj.c
+++ b/canonluj.c
@@ -258,6 +258,18 @@ split_lujvo (char *x)
 char *
 canon_lujvo (char *x)
 {
+  static char bare[65536];
+  char *q;
+
+  if (strchr(x, ',')) {
+    /* Syllable commas make no difference to which word it is */
+    for (q = bare; *x; x++) {
+      if (*x != ',') *q++ = *x;
+    }
+    *q = 0;
+    x = bare;
+  }
+
   if (strchr(x, '+')) {
     /* If it looks like the strings has already been through here, be
        an identity function.  Used in translator to cope with
diff --git a/translate.c b/translate.c
index db552e8..e6c0fe5 100644
--- a/translate.c
+++ b/translate.c
@@ -47,6 +47,15 @@ char * translate(char *word)/*{{{*/
   buf = GETBUF();
   
   res = dict_lookup(word);
+  if (!res && strchr(word, ',')) {
+    /* Syllable commas make no difference to which word it is */
+    char *p, *q;
+    for (p=word, q=buf; *p; p++) {
+      if (*p != ',') *q++ = *p;
+    }
+    *q = 0;
+    res = dict_lookup(buf);
+  }
   if (res) {
     strcpy(buf, res);
     return buf;
-- 
2.43.0


From 932363aeb8af498c265c6797aaf6893e51a873d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:11 +0000
Subject: [PATCH 48/67] fix: cmafihe showed a conversion again on every later
 component of a lujvo [P19]

---
 cm_translate.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/cm_translate.c b/cm_translate.c
index 7e2a8dd..1226a26 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -40,6 +40,7 @@ translate(char *word)
 static void
 append_trans(char *trans, char *result, int initial)
 {
+  initial |= !*result; /* only conversions so far */
   if (trans) {
     if (initial) {
       strcpy(result, trans);
@@ -93,6 +94,7 @@ translate_comp(char *w, int *conversion)
       } else {
         strcat (result, "??");
       }
+      *conversion = 0;
       return result;
     }
   } else {
@@ -136,17 +138,7 @@ translate_lujvo(char *word)
         strcpy(buf,"%");
         strcat(buf,w);
         trans = translate_comp(buf, &conversion);
-        if (trans) {
-          if (!initial) {
-            strcat(result, "-");
-          }
-          strcat(result, trans);
-        } else {
-          if (!initial) {
-            strcat(result, "-");
-          }
-          strcat(result, "?");
-        }
+        append_trans(trans, result, initial);
         break;
       } else {
         /* Try to pull off leading rafsi component and process remainder */
-- 
2.43.0


From 2bd004c2bf4d77d9c0c06a4468dc4082e83c1dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:11 +0000
Subject: [PATCH 49/67] fix: cmafihe left out brivla starting with a vowel and
 names with capitals [P19]

---
 cm_scan.l | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cm_scan.l b/cm_scan.l
index a61d6c1..10adfe7 100644
--- a/cm_scan.l
+++ b/cm_scan.l
@@ -15,7 +15,8 @@ C	[bcdfgjklmnprstvxz]
 CNR	[bcdfgjklmnpstvxz]
 V	[aeiou]
 L	({C}|{V}|y|\')
-LC  {L},?
+LC  ({L}|[A-Z]),?
+CU  [bcdfgjklmnprstvxzBCDFGJKLMNPRSTVXZ]
 
 /* The definition of cmavo is pretty liberal, allowing (hopefully)
    the minimum punctuation and arbitrary extensions, e.g. ca'ai'au. */
@@ -48,7 +49,8 @@ BM  {BM1}|{BM2}|{BM3}
 {BM}                { gather_brivla(yytext); }
 {CM}                { gather_cmavo(yytext); }
 {C}{L}+{V}          { gather_brivla(yytext); }
-(\.?{LC}*{C})\.?    { gather_cmene(yytext); }
+\.?{V}{L}+{V}       { gather_brivla(yytext + (*yytext == '.')); }
+(\.?{LC}*{CU})\.?   { gather_cmene(yytext); }
 {L}+                { gather_fallthru(yytext); }
 [ \t]+              { /* discard */ }
 \r?\n               { /* discard */ }
-- 
2.43.0


From 89263d3913d3eeb3b9014151fa4d19b4b25af684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:11 +0000
Subject: [PATCH 50/67] fix: the embedded dictionary kept entries redefined as
 empty [P16]

---
 dict2inc.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dict2inc.pl b/dict2inc.pl
index 3b1626f..9ba9a4d 100644
--- a/dict2inc.pl
+++ b/dict2inc.pl
@@ -16,10 +16,10 @@ chomp;
         next;
     }
 
-    if (/^([^:]+):([^:]+)/) {
+    if (/^([^:]+):([^:]*)/) {
         my $word = $1;
         my $def = $2;
-        $def =~ s/\"/\\"/go;
+        $def =~ s/([\\"])/\\$1/go;
         $def{$word} = $def;
     }
 }
-- 
2.43.0


From 8458a23d6500aa116c92bc86bdbd33cac63828a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:11 +0000
Subject: [PATCH 51/67] fix: cmafihe glossed the y of an unknown cmavo as a
 word of its own [P19]

---
 cm_gather.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cm_gather.c b/cm_gather.c
index 5b0d36a..979da11 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -196,7 +196,7 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 #endif
         do {
           e--;
-        } while (e > pbuf && strchr("aeiuo'", *e));
+        } while (e > pbuf && strchr("aeiouy'", *e));
       }
     }
     if (bufout[0]) {
@@ -205,7 +205,7 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
     strcat(bufout, "?");
     do {
       pbuf++;
-    } while (*pbuf && strchr("aeiou'", *pbuf));
+    } while (*pbuf && strchr("aeiouy'", *pbuf));
 
     if (*pbuf == '.') ++pbuf;
 
-- 
2.43.0


From bf5edc9a046db35cb2c50dc498238943753d3a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:11 +0000
Subject: [PATCH 52/67] fix: cmafihe took the wrong letter for the hyphen of
 fu'ivla like tabrnpusta [P19]

---
 cm_translate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cm_translate.c b/cm_translate.c
index 1226a26..5f67763 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -275,6 +275,9 @@ translate_unknown(char *w)
   hyph = 0;
   /* Seek location of hyphen.  Import word must have at least 2 letters. */
   for (i=1; i<len-2; i++) {
+    /* The import can't start like this, so the hyphen is further on */
+    if (strchr("lnr", w[i+1]) && is_consonant(w[i+2])) continue;
+
     if (is_consonant_not_r(w[i-1]) && (w[i] == 'r') && is_consonant_not_r(w[i+1])) {
       hyph = i;
       break;
-- 
2.43.0


From f14b58fe0402bedb18434d19354ef49c0c9296d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:53 +0000
Subject: [PATCH 53/67] fix: the tail of a fu'ivla was taken for the last
 component of a lujvo [P15]

---
 canonluj.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/canonluj.c b/canonluj.c
index 222dddd..182cb0c 100644
--- a/canonluj.c
+++ b/canonluj.c
@@ -54,6 +54,22 @@ IV(char c) {
 }
 
 
+/* ================================================== */
+
+static int
+is_gismu_form(char *x)
+{
+  static const char initials[] =
+    "bl br cf ck cl cm cn cp cr ct dj dr dz fl fr gl gr jb jd jg jm jv "
+    "kl kr ml mr pl pr sf sk sl sm sn sp sr st tc tr ts vl vr xl xr zb zd zg zm zv ";
+  char pair[4];
+
+  if (!IC(x[0]) || !IV(x[4])) return 0;
+  if (IV(x[1])) return IC(x[2]) && IC(x[3]);
+  sprintf(pair, "%c%c ", x[0], x[1]);
+  return strstr(initials, pair) && IV(x[2]) && IC(x[3]);
+}
+
 /* ================================================== */
 
 static int
@@ -168,6 +184,7 @@ split_lujvo (char *x)
         break;
 
       case 5:
+        if (!is_gismu_form(x)) return NULL; /* it's a fu'ivla */
         if (!first) strcat(result, "+");
         strcat(result, x);
         return result;
-- 
2.43.0


From bc718629084627f56e1d08d3458a106623cd984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:10 +0000
Subject: [PATCH 54/67] fix: smujajgau merged into a damaged dictionary [P16]

---
 smujajgau.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 67b3be6..8c5ed27 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -414,8 +414,10 @@ read_database(FILE *in)
       fprintf(stderr, "The existing database is damaged\n");
       exit(1);
     }
-    key[entries[i].klen] = 0; /* ... but set it anyway for safety */
-    val[entries[i].vlen] = 0;
+    if (key[entries[i].klen] || val[entries[i].vlen]) {
+      fprintf(stderr, "The existing database is damaged\n");
+      exit(1);
+    }
     add_defn(key, val);
   }
 
-- 
2.43.0


From 0ca1564aa8f8b6de1dcc55eee5c384a5b6c79d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:13 +0000
Subject: [PATCH 55/67] fix: -d showed the uninitialised position of the end of
 the text [P03]

---
 lex2.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lex2.c b/lex2.c
index 79c95df..4c0c271 100644
--- a/lex2.c
+++ b/lex2.c
@@ -1033,6 +1033,10 @@ yylex1(TokenType *res)
 {
   static int returned_EOF = 0;
 
+  /* The end of the text is where its last token was */
+  res->yylloc.first_line = res->yylloc.last_line = last_tok_line;
+  res->yylloc.first_column = res->yylloc.last_column = last_tok_column;
+
   if (returned_EOF) {
     res->yylval = NULL;
     res->value = 0;
@@ -1050,8 +1054,8 @@ yylex1(TokenType *res)
     /* Return a real token */
 
     last_tok_line = res->yylloc.first_line = next_tok->start_line;
-    last_tok_column = res->yylloc.last_line = next_tok->start_line;
-    res->yylloc.first_column = next_tok->start_column;
+    res->yylloc.last_line = next_tok->start_line;
+    last_tok_column = res->yylloc.first_column = next_tok->start_column;
     res->yylloc.last_column = next_tok->start_column;
 
     switch (next_tok->type) {
-- 
2.43.0


From 9ac0022167de0b663a7ee3b55562f91136919968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:42 +0000
Subject: [PATCH 56/67] fix: the LaTeX block output lost the last words of some
 texts [P12]

The block output wrote a box when the next bracket or gloss came, so words
with nothing after them, like a lone i, were never written.
---
 latexblk.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/latexblk.c b/latexblk.c
index 389da74..71412c6 100644
--- a/latexblk.c
+++ b/latexblk.c
@@ -140,6 +140,20 @@ flush_block(void)
 
 }
 
+/*++++++++++++++++++++++++++++++
+  
+  ++++++++++++++++++++++++++++++*/
+
+static void
+write_epilog(void)
+{
+  /* Write out any words with no bracket after them */
+  if (loj_text[0] || eng_text[0] || tag_text[0]) {
+    flush_block();
+  }
+  latex_write_epilog();
+}
+
 /*++++++++++++++++++++++++++++++
   
   ++++++++++++++++++++++++++++++*/
@@ -434,7 +448,7 @@ DriverVector latex_block_driver =/*{{{*/
 {
   initialise,
   write_prologue,
-  latex_write_epilog,
+  write_epilog,
   write_open_bracket,
   write_close_bracket,
   set_eols,
-- 
2.43.0


From 164c052a914e1832249635563d39b6da282e7547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:42 +0000
Subject: [PATCH 57/67] fix: a place of NUMBER MOI was tagged as #0 for linked
 arguments [P13]

The number only got its brackets when the selbri itself had arguments, so
the tag of an argument attached with be had no number to refer to.
---
 terms.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/terms.c b/terms.c
index 96b5eae..c447957 100644
--- a/terms.c
+++ b/terms.c
@@ -199,6 +199,16 @@ static void lc_append_links(LinkConv *lc, TermVector *v)/*{{{*/
   ++(lc->n);
 }
 /*}}}*/
+static int lc_has_links(const LinkConv *lc)/*{{{*/
+{
+  /* Return true if the chain contains any linked sumti */
+  int i;
+  for (i=0; i<lc->n; i++) {
+    if (lc->e[i].type == LC_LINKS) return 1;
+  }
+  return 0;
+}
+/*}}}*/
 static void lc_copy(const LinkConv *src, LinkConv *dest)/*{{{*/
 {
 /* Copy a link/conv vector.  A semi-deep structure copy is made, i.e. the
@@ -808,7 +818,8 @@ static void process_tanru_unit_2_args(TreeNode *tu2, TermVector *pre, TermVector
           tt.numbermoi.moi = moi;
           assign_places(pre, post, lc, &tt);
           if ((pre->n_nodes > 0) ||
-              (post->n_nodes > 0)) {
+              (post->n_nodes > 0) ||
+              lc_has_links(lc)) {
             xrb = prop_require_brac (norl, YES);
           }
         }
-- 
2.43.0


From 20faa5c55c13980f2dfd508cce6e50ccf3500cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:42 +0000
Subject: [PATCH 58/67] fix: the x1 made by jai counted as filled when the old
 x1 was [P13]

After jai the old x1 is the fai place and x1 is a new one, so an argument
in x1 belongs there even if the old x1 was filled with be fa inside.
---
 terms.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terms.c b/terms.c
index c447957..59a22eb 100644
--- a/terms.c
+++ b/terms.c
@@ -708,6 +708,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           fai[1] = place[1];
           place[1].type = PT_TAG;
           place[1].valid = 1;
+          place[1].taken = 0;
           place[1].tag.tag = lc->e[i].data.jai_tag.tag;
           place[1].tag.inner_tu2 = lc->e[i].data.jai_tag.inner_tu2;
         }
@@ -727,6 +728,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           fai[1] = place[1];
           place[1].type = PT_ORD;
           place[1].valid = 1;
+          place[1].taken = 0;
         }
         break;
 
-- 
2.43.0


From bd57af0af95f3171c5a284e45b8ba01f5018d543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:13 +0000
Subject: [PATCH 59/67] fix: long or deeply nested texts overflowed the stack
 in place tagging [P22]

scan_tu1_phase2 recurses to the depth of the parse tree, which grows with the
number of sentences, with over 1 KB of vectors in every frame: a text of ten
thousand sentences, or three hundred nested parentheses, crashed.
---
 terms.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/terms.c b/terms.c
index 59a22eb..b4706aa 100644
--- a/terms.c
+++ b/terms.c
@@ -1726,9 +1726,10 @@ static void scan_tu1_phase2(TreeNode *x)/*{{{*/
       xtv = prop_term_vector(x, NO);
       xdtu1 = prop_done_tu1(x, NO);
       if (xtv && !xdtu1) {
-        LinkConv lc;
+        /* Not automatic, as this function recurses to the depth of the tree */
+        static LinkConv lc;
+        static TermVector pre, post;
         TreeNode *tu2;
-        TermVector pre, post;
         
         tu2 = child_ref(x, 0);
         
-- 
2.43.0


From 03a360ec2327a537cf85de723b32cdfab14b8786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:58 +0000
Subject: [PATCH 60/67] fix: gloss lujvo of many components without overwriting
 parts of the gloss or exhausting the stack [P14]

---
 translate.c | 121 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 75 insertions(+), 46 deletions(-)

diff --git a/translate.c b/translate.c
index e6c0fe5..b9b78ed 100644
--- a/translate.c
+++ b/translate.c
@@ -25,6 +25,10 @@ static char buffers[64][65536];
 static int bufptr=0;
 #define GETBUF() (&buffers[bufptr=(bufptr+1)&0x3f][0])
 
+/* Length of a gloss made up from others, leaving room for what is put around
+   it later */
+#define MAX_GLOSS 32768
+
 /* ================================================== */
 
 typedef struct Component {/*{{{*/
@@ -70,6 +74,18 @@ static int place_in_comp(Component *comp, int place)/*{{{*/
 {
   return (place >= 1 && place <= 5) ? comp->places[place] : place;
 }/*}}}*/
+static char * append_gloss(char *sofar, char *extra)/*{{{*/
+/* Return the two pieces of a gloss joined, in fresh storage that replaces
+   sofar.  A gloss that would no longer fit in a buffer isn't extended. */
+{
+  char *result;
+  if (strlen(sofar) + strlen(extra) >= MAX_GLOSS) return sofar;
+  result = new_array(char, 1 + strlen(sofar) + strlen(extra));
+  strcpy(result, sofar);
+  strcat(result, extra);
+  Free(sofar);
+  return result;
+}/*}}}*/
 static char * translate_lujvo(char *word, int place)/*{{{*/
 /* Lookup a lujvo that isn't matched in the ordinary dictionary, by
    smashing it into consituent rafsi and glueing these together. */
@@ -78,6 +94,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
   int ncomp;
   char *canon, *comp_text;
   char *result;
+  char *gathered; /* glossing a component may use up all the shared buffers */
   char *trans;
   int i;
   int xplace;
@@ -92,20 +109,18 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
     Free(comp_text);
     return NULL;
   }
-  result = GETBUF();
-  result[0] = 0;
+  gathered = new_string("");
   for (i=0; i<ncomp; i++) {
     int last = (i == (ncomp - 1));
     xplace = place_in_comp(&comp[i], last ? place : 1);
     trans = adv_translate(comp[i].text, xplace, last ? TCX_NOUN : TCX_QUAL);
-    if (i > 0) { strcat(result, "-"); }
-    if (trans) {
-      strcat(result, trans);
-    } else {
-      strcat(result, "?");
-    }
+    if (i > 0) { gathered = append_gloss(gathered, "-"); }
+    gathered = append_gloss(gathered, trans ? trans : "?");
   }
+  result = GETBUF();
+  strcpy(result, gathered);
 
+  Free(gathered);
   Free(comp);
   Free(comp_text);
   return result;
@@ -116,28 +131,27 @@ char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
   char *canon, *comp_text;
   Component *comp;
   int n_comps;
-  static char buffer[65536];
+  char *result, *gathered;
   char *trans;
   int i;
 
   canon = canon_lujvo(w);
   if (!canon) return NULL;
   comp_text = split_into_comps(canon, &comp, &n_comps);
-  buffer[0] = 0;
+  gathered = new_string("");
   for (i=0; i<n_comps; i++) {
     int first = (i == 0);
     int last  = (i == (n_comps-1));
     trans = adv_translate(comp[i].text, comp[i].places[1], last ? ctx : TCX_QUAL);
-    if (!first) strcat(buffer, "-");
-    if (trans) {
-      strcat(buffer, trans);
-    } else {
-      strcat(buffer, "?");
-    }
+    if (!first) gathered = append_gloss(gathered, "-");
+    gathered = append_gloss(gathered, trans ? trans : "?");
   }   
+  result = GETBUF();
+  strcpy(result, gathered);
+  Free(gathered);
   Free(comp);
   Free(comp_text);
-  return buffer;
+  return result;
 }/*}}}*/
 char * translate_unknown(char *w, int place, TransContext ctx)/*{{{*/
 /* ================================================== */
@@ -556,7 +570,7 @@ char * fix_trans_in_context(char *src, char *trans, TransContext ctx, char *w1n,
 {
   enum {CL_DISCRETE, CL_SUBSTANCE, CL_ACTOR, CL_PROPERTY, CL_REVERSE_PROPERTY, CL_IDIOMATIC} wordclass;
   char *result;
-  char w1[65536];
+  static char w1[65536];
 
   result = GETBUF();
   
@@ -696,7 +710,7 @@ char * fix_trans_in_context(char *src, char *trans, TransContext ctx, char *w1n,
 
       case CL_IDIOMATIC:
         {
-          char tempbuf[65536];
+          static char tempbuf[65536];
           strcpy(tempbuf, append_ing(w1));
             
           switch (ctx) {
@@ -728,11 +742,11 @@ char * fix_trans_in_context(char *src, char *trans, TransContext ctx, char *w1n,
 }/*}}}*/
 static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
 {
-  char *result = GETBUF();
-  char *p, *q, *r;
-  char *localtrans;
-  q = result;
-  p = trans;
+  char *result, *pattern, *p;
+  char *gathered; /* glossing the base may use up all the shared buffers */
+  char single[2];
+  gathered = new_string("");
+  p = pattern = new_string(trans);
   while (*p) {
     if (*p == '%') {
       int place = *++p ? *p - '0' : 1;
@@ -746,21 +760,22 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
         default: 
           ctx = TCX_NOUN;
           if (show_dictionary_defects) {
-            fprintf(stderr, "Broken base context for %s\n", trans);
+            fprintf(stderr, "Broken base context for %s\n", pattern);
           }
           break;
       }
-      localtrans = adv_translate(base, place, ctx);
-      r = localtrans;
-      while (*r) {
-        *q++ = *r++;
-      }
+      gathered = append_gloss(gathered, adv_translate(base, place, ctx));
       if (*p) ++p; /* onto the char beyond the context symbol */
     } else {
-      *q++ = *p++;
+      single[0] = *p++;
+      single[1] = 0;
+      gathered = append_gloss(gathered, single);
     }
   }
-  *q = 0;
+  result = GETBUF();
+  strcpy(result, gathered);
+  Free(gathered);
+  Free(pattern);
   return result;
 }/*}}}*/
 static char *split_into_comps(char *canon, Component **acomp, int *ncomp)/*{{{*/
@@ -816,27 +831,30 @@ static char *split_into_comps(char *canon, Component **acomp, int *ncomp)/*{{{*/
 }/*}}}*/
 static char * lookup_template_match(int prec, int suffix, int gather, char *orig, Component *comp, int ncomp, int place, TransContext ctx)/*{{{*/
 {
-  char generic[65536]; /* the part that's found in the LHS of the dictionary pattern match */
-  char specific[65536]; /* the other part of the string */
-  char buffer[65536];
+  /* This is entered again while glossing the specific part, so only what is
+     still wanted then is kept outside the static buffers. */
+  char *generic; /* the part that's found in the LHS of the dictionary pattern match */
+  char *specific; /* the other part of the string */
+  static char buffer[65536];
   int cutg, cuts;
   int new_place;
   char *ctx_suf_as_string[4] = {"n", "v", "q", "t"};
-  char *trans;
+  char *trans, *result;
   int got_full_trans;
   char * subst;
 
+  generic = new_string(orig);
+  specific = new_string(orig);
+
   if (suffix) {
     cutg = comp[ncomp-gather].pure_start;
     cuts = comp[ncomp-gather].start;
     strcpy(generic, orig + cutg);
-    strncpy(specific, orig, cuts);
     specific[cuts] = 0;
     new_place = place_in_comp(&comp[ncomp-gather], place);
   } else {
     cutg = comp[gather].start + 1;
     cuts = cutg;
-    strncpy(generic, orig, cutg);
     generic[cutg] = 0;
     strcpy(specific, orig + cuts);
     new_place = place_in_comp(&comp[gather-1], place);
@@ -862,24 +880,30 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
     if (trans[0] == '@') {
       /* redirection to another form */
       int redir_place = trans[1] - '0';
-      return adv_translate(specific, redir_place, ctx);
+      result = adv_translate(specific, redir_place, ctx);
     } else {
       /* Need to substitute % stuff. */
       subst = subst_base_in_pattern(trans, specific);
       if (got_full_trans) {
-        return subst;
+        result = subst;
       } else {
-        char buffer1[65536], *trans1, w1n[65536];
+        static char buffer1[65536], w1n[65536];
+        char *trans1;
         sprintf(buffer1, "*%1d%s%1dn", prec, generic, new_place);
         trans1 = translate(buffer1);
         if (trans1) { strcpy(w1n, trans1); }
         else { w1n[0] = 0; }
-        return fix_trans_in_context(buffer, subst, ctx, w1n, got_full_trans);
+        sprintf(buffer, "*%1d%s%1d", prec, generic, new_place);
+        result = fix_trans_in_context(buffer, subst, ctx, w1n, got_full_trans);
       }
     }
   } else {
-    return NULL;
+    result = NULL;
   }
+
+  Free(generic);
+  Free(specific);
+  return result;
 }/*}}}*/
 static int is_lujvo(char *w)/*{{{*/
 {
@@ -977,8 +1001,10 @@ done:
 char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
 {
   char *trans, *trans1;
-  char w1n[65536];
-  char buffer[65536], buffer1[65536];
+  /* This is entered again for redirections and the parts of lujvo; nothing in
+     the static buffers is wanted any more after that. */
+  static char w1n[65536];
+  static char buffer[65536], buffer1[65536];
   static char result[65536];
   char ctx_suffix[4] = "nvqt";
   char *ctx_suf_as_string[4] = {"n", "v", "q", "t"};
@@ -1031,8 +1057,11 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       }
       *p = 0;
       if (isdigit(*q)) {
+        char *target = new_string(buffer);
         pos = *q - '0';
-        return adv_translate(buffer, pos, ctx);
+        trans = adv_translate(target, pos, ctx);
+        Free(target);
+        return trans;
       } else {
         if (show_dictionary_defects) {
           fprintf(stderr, "Error in dictionary entry for place %d of %s\n", place, w);
-- 
2.43.0


From c876109b6cc35c2c5b5d7b13a3a1106ff6a63d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:01 +0000
Subject: [PATCH 61/67] fix: glosses with many word markers do not overwrite
 themselves [P14]

---
 translate.c | 69 ++++++++++++++++++++++++-----------------------------
 1 file changed, 31 insertions(+), 38 deletions(-)

diff --git a/translate.c b/translate.c
index b9b78ed..2100245 100644
--- a/translate.c
+++ b/translate.c
@@ -384,20 +384,18 @@ static char * make_plural(char *x)/*{{{*/
 
   star_pos = strchr(x, '*');
   if (star_pos && is_ok_after_star(star_pos[1])) {
-    char head[65536];
-    char *result2;
-    char *p, *q;
+    /* Do the rest first, its markers may use up all the shared buffers */
+    char *result2, *head, *rest, *p;
+    p = star_pos + 1;
+    rest = strchr(p, '*') ? make_plural(p) : p;
+    rest = new_string(rest);
+    head = new_string(x);
+    head[star_pos - x] = 0;
     result2 = GETBUF();
-    p = x, q = head;
-    while (p < star_pos) *q++ = *p++;
-    *q = 0;
-    p++;
     strcpy(result2, make_plural(head));
-    if (strchr(p, '*')) {
-      strcat(result2, make_plural(p));
-    } else {
-      strcat(result2, p);
-    }
+    strcat(result2, rest);
+    Free(rest);
+    Free(head);
     return result2;
   } else {
     n = strlen(x);
@@ -423,23 +421,21 @@ static char * append_er(char *x)/*{{{*/
 
   star_pos = strchr(x, '*');
   if (star_pos && is_ok_after_star(star_pos[1])) {
-    char head[65536];
-    char *result2;
-    char *p, *q;
+    /* Do the rest first, its markers may use up all the shared buffers */
+    char *result2, *head, *rest, *p;
+    p = star_pos + 1;
+    rest = strchr(p, '*') ? append_er(p) : p;
+    rest = new_string(rest);
+    head = new_string(x);
+    head[star_pos - x] = 0;
     result2 = GETBUF();
-    p = x, q = head;
-    while (p < star_pos) *q++ = *p++;
-    *q = 0;
-    p++;
     strcpy(result2, append_er(head));
     if (!starts_with_preposition(p)) {
       strcat(result2, " of");
     }
-    if (strchr(p, '*')) {
-      strcat(result2, append_er(p));
-    } else {
-      strcat(result2, p);
-    }
+    strcat(result2, rest);
+    Free(rest);
+    Free(head);
     return result2;
   } else {
     n = strlen(x);
@@ -460,20 +456,18 @@ static char * append_ing(char *x)/*{{{*/
 
   star_pos = strchr(x, '*');
   if (star_pos && is_ok_after_star(star_pos[1])) {
-    char head[65536];
-    char *result2;
-    char *p, *q;
+    /* Do the rest first, its markers may use up all the shared buffers */
+    char *result2, *head, *rest, *p;
+    p = star_pos + 1;
+    rest = strchr(p, '*') ? append_ing(p) : p;
+    rest = new_string(rest);
+    head = new_string(x);
+    head[star_pos - x] = 0;
     result2 = GETBUF();
-    p = x, q = head;
-    while (p < star_pos) *q++ = *p++;
-    *q = 0;
-    p++;
     strcpy(result2, append_ing(head));
-    if (strchr(p, '*')) {
-      strcat(result2, append_ing(p));
-    } else {
-      strcat(result2, p);
-    }
+    strcat(result2, rest);
+    Free(rest);
+    Free(head);
     return result2;
   } else {
 
@@ -569,10 +563,9 @@ static char * translate_pattern(char *w, int place, char *suffix)/*{{{*/
 char * fix_trans_in_context(char *src, char *trans, TransContext ctx, char *w1n, int found_full_trans)/*{{{*/
 {
   enum {CL_DISCRETE, CL_SUBSTANCE, CL_ACTOR, CL_PROPERTY, CL_REVERSE_PROPERTY, CL_IDIOMATIC} wordclass;
-  char *result;
+  static char result[65536];
   static char w1[65536];
 
-  result = GETBUF();
   
   if (trans[1] == ';') {
     switch (trans[0]) {
-- 
2.43.0


From 14d71be5a3d73dfacd78a66708715c2228a3553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 62/67] fix: gloss all words of a selbri in a vocative or mekso
 by their use [P14]

---
 conversion.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/conversion.c b/conversion.c
index 4fdac50..2338193 100644
--- a/conversion.c
+++ b/conversion.c
@@ -346,15 +346,14 @@ conv_mark_gloss_types(TreeNode *x, GlossState g)
         (x->type == N_ZEI) ||
         ((x->type == N_CMAVO) &&
          (x->data.cmavo.selmao == NU))) {
-      if (g != GS_NONE) {
-        gt = prop_glosstype(x, YES);
-        /* In something like 'le jai ca cusku' we want to treat
-           'cusku' as a 'verb' rather than a 'noun' when glossing */
-        if (g == GS_MAIN_SELBRI || g == GS_JAI) {
-          gt->in_selbri = 1;
-        } else {
-          gt->in_selbri = 0;
-        }
+      gt = prop_glosstype(x, YES);
+      /* In something like 'le jai ca cusku' we want to treat
+         'cusku' as a 'verb' rather than a 'noun' when glossing.  The words of
+         a vocative or mekso (GS_NONE) are glossed like those in a sumti. */
+      if (g == GS_MAIN_SELBRI || g == GS_JAI) {
+        gt->in_selbri = 1;
+      } else {
+        gt->in_selbri = 0;
       }
     }
       
-- 
2.43.0


From d985f4024127a542001d9196632776f7f316afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:26 +0000
Subject: [PATCH 63/67] fix: gloss a tense in the selbri of a vocative, mekso
 or fi'o [P14]

---
 tenses.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/tenses.c b/tenses.c
index a813c65..128b439 100644
--- a/tenses.c
+++ b/tenses.c
@@ -93,20 +93,14 @@ check_tense_context(TreeNode *x)
 
       case MEX_OPERATOR:
         /* Via NAhU selbri */
-        goto done;
-        break;
-
       case OPERAND_3:
         /* Via NIhE selbri */
-        goto done;
-        break;
-
       case COMPLEX_TENSE_MODAL:
         /* Via FIhO selbri */
-        goto done;
-        break;
-
       case FREE:
+        /* Vocative.  The selbri in all these is glossed as in a sumti. */
+        tc = prop_tense_ctx(x, YES);
+        tc->ctx = TSC_NOUN;
         goto done;
         break;
 
-- 
2.43.0


From eb37d866db56437dba4c49c21c62b47ab12b2ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:06 +0000
Subject: [PATCH 64/67] fix: find the conversion of a modal or its particle
 that carries an attitudinal [P23]

---
 conversion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conversion.c b/conversion.c
index 2338193..982e01b 100644
--- a/conversion.c
+++ b/conversion.c
@@ -71,7 +71,7 @@ conv_tag_se_bai(TreeNode *x)
       case SE_BAI:
         c1 = strip_attitudinal(nt->children[0]);
         assert(c1->data.cmavo.selmao == SE);
-        c2 = nt->children[1];
+        c2 = strip_attitudinal(nt->children[1]);
         conv = lookup_converted_place(c1);
         ext = prop_bai_conversion(c2, YES);
         ext->conv = conv;
@@ -82,7 +82,7 @@ conv_tag_se_bai(TreeNode *x)
         break;
 
       case BAI1:
-        c1 = nt->children[0];
+        c1 = strip_attitudinal(nt->children[0]);
         ext = prop_bai_conversion(c1, YES);
         ext->conv = 1;
         break;
-- 
2.43.0


From b31e4dcd1fd29a8a8508241457a96112ecc55278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:06 +0000
Subject: [PATCH 65/67] fix: a lone degree word attached to a compound does not
 hide the compound's gloss [P23]

---
 output.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/output.c b/output.c
index 92d1a5d..b497ee1 100644
--- a/output.c
+++ b/output.c
@@ -313,6 +313,7 @@ static void get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
     selmao = x->data.cmavo.selmao;
     switch (selmao) {
       case UI:
+      case CAI:
       case BAhE:
       case DAhO:
       case Y:
-- 
2.43.0


From 34a5b3a8caadf5384c923a66538ff1fba622b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:06 +0000
Subject: [PATCH 66/67] fix: gloss a lone degree word attached inside a
 compound [P23]

---
 output.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/output.c b/output.c
index b497ee1..701d194 100644
--- a/output.c
+++ b/output.c
@@ -1500,6 +1500,7 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
       case SHOW_LOJBAN_AND_INDICATORS:
         if ((x->type == N_CMAVO) && 
             ((x->data.cmavo.selmao == UI) ||
+             (x->data.cmavo.selmao == CAI) ||
              (x->data.cmavo.selmao == BAhE) ||
              (x->data.cmavo.selmao == Y) || 
              (x->data.cmavo.selmao == DAhO) ||
-- 
2.43.0


From f5cbdbea0f933b26d8fc6dd41809fc0e0366d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:06 +0000
Subject: [PATCH 67/67] fix: number the sumti a relative clause behind a
 possessor belongs to [P23]

---
 output.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/output.c b/output.c
index 701d194..b1fd6a1 100644
--- a/output.c
+++ b/output.c
@@ -79,6 +79,7 @@ static void add_bracketing_internal(TreeNode *x, int *seq)/*{{{*/
         break;
 
       case SUMTI_TAIL_1A:
+      case SUMTI_6:
         if (prop_require_brac(x, NO)) {
           y->number = ++*seq;
           y->brackets = BR_CEIL;
-- 
2.43.0

