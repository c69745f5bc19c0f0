From 9d36707dcbd1b81a956b8abea11f0e934e702368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:10 +0000
Subject: [PATCH 01/31] fix: let a name used as f(x) in the program be defined
 with DEF later

A name followed by parentheses, with no DIM or DEF yet, was fixed as an array
at the end of compilation, so the documented immediate-mode example (run a
program line using double(), after DEF double(x)=2*x at the prompt) failed.
Decide when the name is first evaluated instead.
---
 Basic/parse.c  |  1 -
 Basic/run.c    |  4 ++++
 Basic/symbol.c | 10 ----------
 Basic/symbol.h |  3 ---
 4 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index 5892d36..eb50c6b 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -44,7 +44,6 @@ BCODE* parse_source(const SOURCE* source, SYMTAB* st, bool recognise_keyword_pre
     parser.bcode = NULL;
   }
   delete_lex(parser.lex);
-  sym_make_unknown_array(st);
   return parser.bcode;
 }
 
diff --git a/Basic/run.c b/Basic/run.c
index 748a3c9..f3304ba 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -526,6 +526,8 @@ static void execute(VM* vm) {
       assert(sym != NULL && sym->type == TYPE_NUM);
       // must be a parenthesised kind of symbol; not a builtin,
       // which has its own opcodes; therefore array or user-defined function
+      if (sym->kind == SYM_UNKNOWN)
+        sym->kind = SYM_ARRAY; // not defined with DIM or DEF: treat as undeclared array
       if (sym->kind == SYM_ARRAY)
         get_numeric_element(vm, sym, i->u.param.params);
       else {
@@ -650,6 +652,8 @@ static void execute(VM* vm) {
       assert(sym != NULL && sym->type == TYPE_STR);
       // must be a parenthesised kind of symbol; not a builtin,
       // which has its own opcodes; therefore array or user-defined function
+      if (sym->kind == SYM_UNKNOWN)
+        sym->kind = SYM_ARRAY; // not defined with DIM or DEF: treat as undeclared array
       if (sym->kind == SYM_ARRAY)
         get_string_element(vm, sym, i->u.param.params);
       else {
diff --git a/Basic/symbol.c b/Basic/symbol.c
index d282b96..5360e94 100644
--- a/Basic/symbol.c
+++ b/Basic/symbol.c
@@ -156,16 +156,6 @@ const char* sym_name(const SYMTAB* st, SYMID id) {
   return st->psym[id]->name;
 }
 
-// If a symbol remains of UNKNOWN kind after parsing,
-// it has been used with parens but never defined with DIM or DEF,
-// so should be treated as an undeclared array.
-void sym_make_unknown_array(SYMTAB* st) {
-  for (unsigned i = 0; i < st->used; i++) {
-    if (st->psym[i]->kind == SYM_UNKNOWN)
-      st->psym[i]->kind = SYM_ARRAY;
-  }
-}
-
 void print_binst(const BINST* i, unsigned j, const SOURCE* source, const SYMTAB* st, FILE* fp) {
   assert(fp != NULL);
   fprintf(fp, "%5u %s ", j, bcode_name(i->op));
diff --git a/Basic/symbol.h b/Basic/symbol.h
index 6b95877..4496a03 100644
--- a/Basic/symbol.h
+++ b/Basic/symbol.h
@@ -64,8 +64,5 @@ SYMBOL* sym_insert_builtin(SYMTAB*, const char* name, int type, const char* args
 SYMBOL* symbol(SYMTAB*, SYMID);
 const char* sym_name(const SYMTAB*, SYMID);
 
-// Turn parenthesised symbols of UNKNOWN kind into ARRAY.
-void sym_make_unknown_array(SYMTAB*);
-
 // in symbol.h because symbol.h depends on bcode.h
 void print_binst(const BINST*, unsigned j, const SOURCE* source, const SYMTAB* st, FILE* fp);
-- 
2.43.0


From b9801e56ef87ba3aaeb80580d97f3ee57a8c9448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:26 +0000
Subject: [PATCH 02/31] fix: report assignment to a built-in function's name as
 a syntax error

LEN=5, READ LEN, INPUT LEN and the like compiled to an instruction on the
built-in's symbol and ended the interpreter with an assertion failure.
---
 Basic/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index eb50c6b..bda0ce8 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -910,6 +910,8 @@ static SYMBOL* identifier(PARSER* parser, unsigned *parameters, int paren_kind)
 
   SYMBOL* sym = sym_lookup(parser->st, name, /*paren*/ *parameters);
   if (sym) {
+    if (sym->kind == SYM_BUILTIN)
+      parse_error_no_token(parser, "name already used for %s: %s", symbol_kind(sym->kind), name);
     if (*parameters) {
       if (sym->kind == SYM_UNKNOWN)
         sym->kind = paren_kind;
-- 
2.43.0


From 9b50554bdd02970fa4d593b24b40a88f255d50e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:29 +0000
Subject: [PATCH 03/31] fix: more than two subscripts is a run-time error, not
 an assertion failure

---
 Basic/run.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index f3304ba..286a3ad 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1226,7 +1226,8 @@ static unsigned pop_index(VM* vm, const char* name) {
 }
 
 static void pop_indexes(VM* vm, unsigned* indexes, unsigned dimensions, const char* name) {
-  assert(dimensions <= MAX_DIMENSIONS);
+  if (dimensions > MAX_DIMENSIONS)
+    run_error(vm, "too many dimensions: %s\n", name);
   for (unsigned i = 0; i < dimensions; i++)
     indexes[i] = pop_index(vm, name);
 }
-- 
2.43.0


From 204024723b1718986cf5afa8a0f74157cae4e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:32 +0000
Subject: [PATCH 04/31] fix: ASC of a character above 127 was negative

---
 Basic/run.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 286a3ad..8e31c21 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1012,7 +1012,7 @@ static void execute(VM* vm) {
     // builtins
     case B_ASC: {
       char* s = pop_str(vm);
-      push(vm, s[0]);
+      push(vm, (unsigned char) s[0]);
       efree(s);
       break;
     }
-- 
2.43.0


From 5c8110bd7d2401ce6a2268eb1392628153e4768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:15 +0000
Subject: [PATCH 05/31] fix: a run-time error left values on the stacks and
 function calls in progress

Each failed immediate statement used up stack capacity until every expression
failed with a stack overflow, and an error inside a user-defined function left
its parameter assigned and made every later call 'nested'.
---
 Basic/run.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 8e31c21..0817822 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -330,7 +330,9 @@ static bool immediate_state(VM* vm) {
 }
 
 static void execute(VM*);
+static void abandon_statement(VM*);
 static void report_for_in_progress(VM*);
+static void end_def(VM*);
 
 // Run the currently selected code from current PC.
 static void run(VM* vm) {
@@ -342,6 +344,8 @@ static void run(VM* vm) {
     while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
       execute(vm);
   }
+  else
+    abandon_statement(vm);
   untrap_interrupt();
 
   if (interrupted)
@@ -367,6 +371,15 @@ static void run(VM* vm) {
   }
 }
 
+// After a run-time error, discard whatever the failed statement left unfinished,
+// so that it cannot affect statements run later.
+static void abandon_statement(VM* vm) {
+  if (vm->fn.code_state.code != NULL)
+    end_def(vm);
+  vm->sp = 0;
+  clear_string_stack(vm);
+}
+
 bool vm_continue(VM* vm) {
   if (vm->stopped_program.code == NULL)
     return false;
@@ -459,7 +472,6 @@ static void pop_return(VM*);
 static int find_for(VM*, SYMID);
 static void next(VM*, int stack_index);
 static void call_def(VM*, SYMBOL*, unsigned params);
-static void end_def(VM*);
 
 // Debugging
 static void print_stack(const VM*);
-- 
2.43.0


From 55641a401b93e5f348d2a8dd4963e6a9e8f3530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 06/31] fix: repeating an INPUT into an array element left its
 subscripts on the stack

---
 Basic/run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 0817822..5b07036 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -964,6 +964,9 @@ static void execute(VM* vm) {
         break;
       }
       puts("* Invalid input *");
+      // the subscripts of the item will be evaluated again
+      assert(vm->sp >= i->u.param.params);
+      vm->sp -= i->u.param.params;
       vm->code_state.pc = vm->input_pc;
       return;
     }
-- 
2.43.0


From bdc16367e4255c85be7dfaf220f89666cdd27cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:21 +0000
Subject: [PATCH 07/31] fix: INPUT at end of input repeated for ever

---
 Basic/run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/run.c b/Basic/run.c
index 5b07036..ed3394d 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -930,6 +930,7 @@ static void execute(VM* vm) {
       if (fgets(vm->input, sizeof vm->input, stdin) == NULL) {
         if (ferror(stdin))
           run_error(vm, "error reading input\n");
+        run_error(vm, "end of input\n");
       }
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
-- 
2.43.0


From 4c6d0c1b4b3a325477da79c008390f9bb4d2488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:32 +0000
Subject: [PATCH 08/31] fix: accept a source file whose last line has no
 newline

---
 Basic/source.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index 6848df6..d4a5114 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -171,12 +171,10 @@ SOURCE* load_source_file(const char* name) {
   char buf[256];
   while (fgets(buf, sizeof buf, fp)) {
     size_t len = strlen(buf);
-    if (len > 0) {
-      if (buf[len-1] != '\n')
-        source_error(src, "source line is too long");
-      len--;
-      buf[len] = '\0';
-    }
+    if (len > 0 && buf[len-1] == '\n')
+      buf[--len] = '\0';
+    else if (!feof(fp)) // the last line might have no newline
+      source_error(src, "source line is too long");
     if (len == 0)
       source_error(src, "source line is empty");
     unsigned num;
-- 
2.43.0


From d6cab6a39449d66135aa699ce9d59278c09df6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:35 +0000
Subject: [PATCH 09/31] fix: close a source file after loading it

---
 Basic/source.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/source.c b/Basic/source.c
index d4a5114..6f6a104 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -183,6 +183,7 @@ SOURCE* load_source_file(const char* name) {
       exit(EXIT_FAILURE);
     append(src, num, text);
   }
+  fclose(fp);
   return src;
 }
 
-- 
2.43.0


From 94d246ffb2fbc44bc9e8de27f9914b92edc3677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:30 +0000
Subject: [PATCH 10/31] fix: a LOAD error ended the interpreter and lost the
 program in memory

Errors in a source file are now returned to the caller. LOAD reports them and
keeps the current program; the command line modes still exit with failure.
---
 Basic/run.c     |  2 +-
 Basic/source.c  | 78 +++++++++++++++++++++++++++++++++----------------
 System/lbasic.c | 10 ++++++-
 3 files changed, 63 insertions(+), 27 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index ed3394d..19b9e2b 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -247,7 +247,7 @@ bool vm_save_source(VM* vm, const char* name) {
 }
 
 bool vm_load_source(VM* vm, const char* name) {
-  SOURCE* source = load_source_file(name); // TODO: errors should not terminate the interpreter
+  SOURCE* source = load_source_file(name);
   if (source == NULL)
     return false;
 
diff --git a/Basic/source.c b/Basic/source.c
index 6f6a104..eeff5e5 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -80,7 +80,6 @@ static void source_error(const SOURCE* src, const char* fmt, ...) {
   va_start(ap, fmt);
   vfprintf(stderr, fmt, ap);
   va_end(ap);
-  exit(EXIT_FAILURE);
 }
 
 static void ensure_space(SOURCE* src) {
@@ -91,21 +90,28 @@ static void ensure_space(SOURCE* src) {
   }
 }
 
-static void append(SOURCE* src, unsigned num, const char* text) {
+// Append a line and return true, or report an error and return false.
+static bool append(SOURCE* src, unsigned num, const char* text) {
   assert(src != NULL);
   assert(text != NULL);
-  if (num == 0)
+  if (num == 0) {
     source_error(src, "invalid line number: %u\n", num);
+    return false;
+  }
   unsigned latest = src->used ? src->lines[src->used - 1].num : 0;
-  if (num <= latest)
+  if (num <= latest) {
     source_error(src, "line number is not in increasing order: %u\n", num);
+    return false;
+  }
   ensure_space(src);
   assert(src->used < src->allocated);
   src->lines[src->used].num = num;
   src->lines[src->used].text = estrdup(text);
   src->used++;
+  return true;
 }
 
+// Return the text after the line number, or report an error and return NULL.
 static const char* parse_line_number(SOURCE* src, const char* line, unsigned *num) {
   assert(line != NULL);
   assert(num != NULL);
@@ -113,8 +119,10 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   const char* s = line;
   for (; isdigit(*s); s++)
     *num = *num * 10 + *s - '0';
-  if (s == line)
+  if (s == line) {
     source_error(src, "line has no line number\n");
+    return NULL;
+  }
   // treat one space as pure delimiter but preserve any other indenting
   if (*s == ' ')
     s++;
@@ -161,27 +169,44 @@ void delete_source_line(SOURCE* src, unsigned line) {
   }
 }
 
-SOURCE* load_source_file(const char* name) {
-  FILE* fp = fopen(name, "r");
-  if (fp == NULL) {
-    fprintf(stderr, "Cannot open source file: %s\n", name);
-    return NULL;
-  }
-  SOURCE* src = new_source(name);
+// Read all lines of the file into the source and return true,
+// or report an error and return false.
+static bool read_source(SOURCE* src, FILE* fp) {
   char buf[256];
   while (fgets(buf, sizeof buf, fp)) {
     size_t len = strlen(buf);
     if (len > 0 && buf[len-1] == '\n')
       buf[--len] = '\0';
-    else if (!feof(fp)) // the last line might have no newline
-      source_error(src, "source line is too long");
-    if (len == 0)
-      source_error(src, "source line is empty");
+    else if (!feof(fp)) { // the last line might have no newline
+      source_error(src, "source line is too long\n");
+      return false;
+    }
+    if (len == 0) {
+      source_error(src, "source line is empty\n");
+      return false;
+    }
     unsigned num;
     const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
-      exit(EXIT_FAILURE);
-    append(src, num, text);
+    if (text == NULL || !append(src, num, text))
+      return false;
+  }
+  if (ferror(fp)) {
+    source_error(src, "error reading source file\n");
+    return false;
+  }
+  return true;
+}
+
+SOURCE* load_source_file(const char* name) {
+  FILE* fp = fopen(name, "r");
+  if (fp == NULL) {
+    fprintf(stderr, "Cannot open source file: %s\n", name);
+    return NULL;
+  }
+  SOURCE* src = new_source(name);
+  if (!read_source(src, fp)) {
+    delete_source(src);
+    src = NULL;
   }
   fclose(fp);
   return src;
@@ -212,10 +237,14 @@ static unsigned line_length(const char* s) {
 
 static unsigned get_line(SOURCE* src, const char* string, char* buf, unsigned bufsz) {
   unsigned len = line_length(string);
-  if (len == 0)
-    source_error(src, "source line is empty");
-  if (len + 1 > bufsz)
-    source_error(src, "source line is too long");
+  if (len == 0) {
+    source_error(src, "source line is empty\n");
+    exit(EXIT_FAILURE);
+  }
+  if (len + 1 > bufsz) {
+    source_error(src, "source line is too long\n");
+    exit(EXIT_FAILURE);
+  }
   strncpy(buf, string, len);
   buf[len] = '\0';
   return len;
@@ -233,9 +262,8 @@ SOURCE* load_source_string(const char* string, const char* name) {
 
     unsigned num;
     const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
+    if (text == NULL || !append(src, num, text))
       exit(EXIT_FAILURE);
-    append(src, num, text);
 
     if (string[len] == '\0' || string[len+1] == '\0')
       break;
diff --git a/System/lbasic.c b/System/lbasic.c
index dd2e1c2..bcfe3ae 100644
--- a/System/lbasic.c
+++ b/System/lbasic.c
@@ -132,6 +132,8 @@ static void process_file(const Options* opt) {
       delete_symbol_table(st);
       delete_source(source);
     }
+    else
+      exit(EXIT_FAILURE);
     return;
   }
 
@@ -139,7 +141,9 @@ static void process_file(const Options* opt) {
 
   VM* vm = new_vm(opt->keywords_anywhere, opt->trace_basic, opt->trace_for, opt->trace_log);
 
-  if (vm_load_source(vm, opt->file_name)) {
+  if (!vm_load_source(vm, opt->file_name))
+    exit(EXIT_FAILURE);
+  else {
 #if HAS_TIMER
     TIMER timer;
     start_timer(&timer);
@@ -162,6 +166,8 @@ static void list_file(const char* file_name) {
       printf("%5u %s\n", source_linenum(source, i), source_text(source, i));
     delete_source(source);
   }
+  else
+    exit(EXIT_FAILURE);
 }
 
 static void print_name(const char* name);
@@ -188,6 +194,8 @@ static void list_names(const char* file_name, bool crunched) {
     delete_lex(lex);
     delete_source(source);
   }
+  else
+    exit(EXIT_FAILURE);
 }
 
 static void print_name(const char* name) {
-- 
2.43.0


From bba2a8c45cef734ce93c746552277af2d1b1b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:33 +0000
Subject: [PATCH 11/31] fix: SAVE did not report that the file could not be
 written

---
 Basic/source.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index eeff5e5..8386c27 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -215,12 +215,16 @@ SOURCE* load_source_file(const char* name) {
 bool save_source_file(const SOURCE* src, const char* name) {
   FILE* fp = fopen(name, "w");
   if (fp == NULL) {
-    fprintf(stderr, "cannot create file: %s", name);
+    fprintf(stderr, "cannot create file: %s\n", name);
     return false;
   }
   for (unsigned i = 0; i < src->used; i++)
     fprintf(fp, "%u %s\n", src->lines[i].num, src->lines[i].text);
-  fclose(fp);
+  bool failed = ferror(fp);
+  if (fclose(fp) != 0 || failed) {
+    fprintf(stderr, "error writing file: %s\n", name);
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From f53713cf41ebad492c1294897a387fa3c474c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:48 +0000
Subject: [PATCH 12/31] fix: line number 0 ended the session and large numbers
 wrapped round

---
 Basic/source.c        | 11 +++++++++--
 Monitor/interactive.c |  9 ++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index 8386c27..c3a84e9 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -5,6 +5,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <assert.h>
 #include "source.h"
@@ -117,8 +118,14 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   assert(num != NULL);
   *num = 0;
   const char* s = line;
-  for (; isdigit(*s); s++)
-    *num = *num * 10 + *s - '0';
+  for (; isdigit(*s); s++) {
+    unsigned digit = *s - '0';
+    if (*num > (UINT_MAX - digit) / 10) {
+      source_error(src, "line number is out of range\n");
+      return NULL;
+    }
+    *num = *num * 10 + digit;
+  }
   if (s == line) {
     source_error(src, "line has no line number\n");
     return NULL;
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index a9ed22a..4326adb 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -8,6 +8,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <stdarg.h>
+#include <limits.h>
 #include <math.h>
 #include <assert.h>
 #include "interactive.h"
@@ -142,6 +143,10 @@ static void program_line(VM* vm, char* line) {
   assert(line != NULL && isdigit(*line));
   unsigned num = 0;
   const char* p = read_num(line, &num);
+  if (num == 0 || num == UINT_MAX) { // UINT_MAX if out of range
+    error("Invalid line number");
+    return;
+  }
   if (*p == '\0' || *p == '\n')
     vm_delete_source_line(vm, num);
   else {
@@ -436,11 +441,13 @@ static char* skip_space(char* s) {
   return s;
 }
 
+// Read a number, giving UINT_MAX if it is out of range.
 static char* read_num(char* line, unsigned *num) {
   assert(line != NULL && isdigit(*line));
   *num = 0;
   do {
-    *num = 10 * *num + *line - '0';
+    unsigned digit = *line - '0';
+    *num = *num > (UINT_MAX - digit) / 10 ? UINT_MAX : 10 * *num + digit;
     line++;
   } while (isdigit(*line));
   return line;
-- 
2.43.0


From 9b237389c1370d6d6504af5292f402d4808c0706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:03 +0000
Subject: [PATCH 13/31] fix: a last command with no newline was rejected as too
 long

---
 Monitor/interactive.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 4326adb..fea9210 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -113,6 +113,8 @@ static bool line_complete(char* cmd) {
     cmd[len-1] = '\0';
     return true;
   }
+  if (feof(stdin)) // the last line might have no newline
+    return true;
   error("Command line too long");
   int c;
   while ((c = getchar()) != EOF && c != '\n')
-- 
2.43.0


From 7c76c9bf3847e0dde9f74acba1848ae53797792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 14/31] fix: print position was not 1 after INPUT and at the
 start of a run

---
 Basic/run.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 19b9e2b..6085aac 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -339,6 +339,7 @@ static void run(VM* vm) {
   assert(vm->code_state.code != NULL);
 
   vm->stopped = false;
+  vm->col = 1; // anything printed earlier was followed by a newline or a prompt
   trap_interrupt();
   if (setjmp(vm->errjmp) == 0) {
     while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
@@ -932,6 +933,7 @@ static void execute(VM* vm) {
           run_error(vm, "error reading input\n");
         run_error(vm, "end of input\n");
       }
+      vm->col = 1; // the input line was ended by newline
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
       break;
-- 
2.43.0


From ebe255c1ffbb8c7558c9a7193c6ff3e7fe2d8f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 15/31] fix: an invalid character or bad DATA string ended the
 interpreter

These errors are now reported as syntax errors on the line, like all others,
so that interactive mode continues. The text in 'unterminated string' was also
printed without being terminated.
---
 Basic/lexer.c | 46 ++++++++++++++++++++++++++++++----------------
 Basic/parse.c | 11 +++++++++--
 2 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index fdd4502..f868ce3 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -73,11 +73,13 @@ static void lex_error(LEX* lex, const char* fmt, ...) {
   va_end(ap);
 }
 
-static void validate(LEX* lex, int c) {
-  if (c != EOF && (c < 0 || c >= 127)) {
+// Report an invalid character and return false, or return true if it is valid.
+static bool validate(LEX* lex, int c) {
+  if (c != EOF && c >= 127) {
     lex_error(lex, "invalid character on line: value %d\n", c);
-    exit(EXIT_FAILURE);
+    return false;
   }
+  return true;
 }
 
 static int lex_char_pos(LEX* lex, unsigned *pos) {
@@ -94,9 +96,7 @@ static int lex_char_pos(LEX* lex, unsigned *pos) {
   if (lex->text[lex->pos] == '\0')
     return '\n';
 
-  int c = lex->text[lex->pos++];
-  validate(lex, c);
-  return c;
+  return (unsigned char) lex->text[lex->pos++];
 }
 
 static int lex_char(LEX* lex) {
@@ -108,9 +108,7 @@ static int lex_char(LEX* lex) {
   if (lex->text[lex->pos] == '\0')
     return '\n';
 
-  int c = lex->text[lex->pos++];
-  validate(lex, c);
-  return c;
+  return (unsigned char) lex->text[lex->pos++];
 }
 
 int lex_peek(LEX* lex) {
@@ -122,9 +120,7 @@ int lex_peek(LEX* lex) {
   if (lex->text[lex->pos] == '\0')
     return '\n';
 
-  int c = lex->text[lex->pos];
-  validate(lex, c);
-  return c;
+  return (unsigned char) lex->text[lex->pos];
 }
 
 void lex_discard(LEX* lex) {
@@ -150,7 +146,7 @@ static void pushback(LEX* lex, int c) {
   if (lex->pos == 0)
     lex_fatal(lex, "internal error: invalid pushback\n");
   lex->pos--;
-  if (lex->text[lex->pos] != c)
+  if ((unsigned char) lex->text[lex->pos] != c)
     lex_fatal(lex, "internal error: pushback: attempted '%c' 0x%02x, found '%c' 0x%02x\n",
         chr(c), c, chr(lex->text[lex->pos]), lex->text[lex->pos]);
 }
@@ -282,6 +278,8 @@ int lex_next(LEX* lex) {
         lex_error(lex, "a string is too long: \"%s...", lex->word);
         return lex->token = TOK_ERROR;
       }
+      if (!validate(lex, c))
+        return lex->token = TOK_ERROR;
       lex->word[i++] = c;
     }
     lex->word[i] = '\0';
@@ -308,10 +306,14 @@ int lex_next(LEX* lex) {
     return lex->token = '>';
   }
 
+  if (!validate(lex, c))
+    return lex->token = TOK_ERROR;
+
   return lex->token = (c == EOF ? TOK_EOF : c);
 }
 
 // Recognise a string token, or read other characters into a string, for untyped DATA.
+// On error, return NULL, and the current token is TOK_ERROR.
 const char* lex_next_data(LEX* lex) {
   unsigned pos;
   int c = lex_char_pos(lex, &pos);
@@ -327,13 +329,20 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "a string is too long: \"%s...", lex->word);
-        exit(EXIT_FAILURE);
+        lex->token = TOK_ERROR;
+        return NULL;
+      }
+      if (!validate(lex, c)) {
+        lex->token = TOK_ERROR;
+        return NULL;
       }
       lex->word[i++] = c;
     }
     if (c != '\"') {
+      lex->word[i] = '\0';
       lex_error(lex, "unterminated string: \"%s...", lex->word);
-      exit(EXIT_FAILURE);
+      lex->token = TOK_ERROR;
+      return NULL;
     }
   }
   else {
@@ -341,7 +350,12 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "data is too long: %s...", lex->word);
-        exit(EXIT_FAILURE);
+        lex->token = TOK_ERROR;
+        return NULL;
+      }
+      if (!validate(lex, c)) {
+        lex->token = TOK_ERROR;
+        return NULL;
       }
       lex->word[i++] = c;
       c = lex_char(lex);
diff --git a/Basic/parse.c b/Basic/parse.c
index bda0ce8..6f9eba6 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -211,9 +211,16 @@ static void data_statement(PARSER* parser) {
   if (lex_token(parser->lex) != TOK_DATA)
     match(parser, TOK_DATA);
 
-  emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+  datum(parser);
   while (lex_next(parser->lex) == ',')
-    emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+    datum(parser);
+}
+
+static void datum(PARSER* parser) {
+  const char* data = lex_next_data(parser->lex);
+  if (data == NULL)
+    parse_error(parser, "data item expected");
+  emit_str(parser->bcode, B_DATA, data);
 }
 
 static void read_item(PARSER*);
-- 
2.43.0


From 18369e579599419239a9c2cb7bdfd50bbaa56a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:47 +0000
Subject: [PATCH 16/31] fix: an unquoted DATA item at the end of a CR LF line
 kept the CR

---
 Basic/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index f868ce3..bc734c7 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -362,7 +362,7 @@ const char* lex_next_data(LEX* lex) {
     }
     pushback(lex, c);
     // trim trailing space otherwise it is inconsistent trimming leading space only
-    while (i > 0 && (lex->word[i-1] == ' ' || lex->word[i-1] == '\t'))
+    while (i > 0 && (lex->word[i-1] == ' ' || lex->word[i-1] == '\t' || lex->word[i-1] == '\r'))
       i--;
   }
   lex->word[i] = '\0';
-- 
2.43.0


From 182b3d3d16d658a833e8bd15bd87327afe664788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:49 +0000
Subject: [PATCH 17/31] fix: a number before a crunched ELSE was read as having
 an exponent

---
 Basic/lexer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index bc734c7..3138912 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -245,7 +245,8 @@ int lex_next(LEX* lex) {
           return lex->token = TOK_ERROR;
       }
     }
-    if (tolower(c) == 'e') {
+    // an E not beginning an exponent might begin a crunched keyword, as in 2ELSE
+    if (tolower(c) == 'e' && (isdigit(lex_peek(lex)) || lex_peek(lex) == '-')) {
       if (!append(lex, &i, c, NUMBER))
         return lex->token = TOK_ERROR;
       if ((c = lex_char(lex)) == '-') {
-- 
2.43.0


From 592ab3c41d9c56ad82f6ac4828037b7288c159a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:55 +0000
Subject: [PATCH 18/31] fix: RENUM did not update GOTO or GOSUB after THEN or
 ELSE

---
 Monitor/interactive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index fea9210..4fce4b0 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -372,7 +372,9 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
     while (tok != TOK_EOF && tok != '\n') {
       if (takes_line_number(tok)) {
         tok = lex_next(lex);
-        if (tok == TOK_NUM) {
+        if (tok != TOK_NUM)
+          continue; // might itself take a line number: THEN GOTO 100
+        {
           double x = lex_num(lex);
           if (x > 0 && x <= (U16)(-1) && floor(x) == x) {
             unsigned basic_line = (unsigned) x;
-- 
2.43.0


From dffc5ad15e09f1e8df94f18baf5c210964b77aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 19/31] fix: RENUM could give lines duplicate or out of order
 numbers

---
 Monitor/interactive.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 4fce4b0..df05ebf 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -343,20 +343,24 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   LEX* lex = new_lex(/*name*/ NULL, vm_keywords_anywhere(vm));
 
   // create mapping of old Basic line number to new Basic line number
-  // update the line number of each source line
+  // change nothing if the new line numbers are not in order
   LINE_MAP* map = new_line_map(source_lines(source));
   unsigned new_linenum = new_start;
   unsigned prev_basic_line = 0;
   for (unsigned line = 0; line < source_lines(source); line++) {
     unsigned basic_line = source_linenum(source, line);
     if (basic_line >= old_start) {
-      if (new_linenum < prev_basic_line) {
+      if (new_linenum <= prev_basic_line) {
         error("Cannot renumber line %u to %u after line %u",
               basic_line, new_linenum, prev_basic_line);
         goto bail;
       }
+      if (new_linenum > (U16)(-1)) { // could not be the target of a GOTO
+        error("Cannot renumber line %u to %u: number out of range",
+              basic_line, new_linenum);
+        goto bail;
+      }
       insert_line_mapping(map, basic_line, new_linenum);
-      set_source_linenum(source, line, new_linenum);
       prev_basic_line = new_linenum;
       new_linenum += inc;
     }
@@ -366,6 +370,13 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
     }
   }
 
+  // update the line number of each source line
+  for (unsigned line = 0; line < source_lines(source); line++) {
+    unsigned new_basic_line;
+    if (lookup_line_mapping(map, source_linenum(source, line), &new_basic_line))
+      set_source_linenum(source, line, new_basic_line);
+  }
+
   // update line numbers in source text
   for (unsigned line = 0; line < source_lines(source); line++) {
     int tok = lex_line(lex, line, source_text(source, line));
-- 
2.43.0


From 1df67eb998ccea823256b6b085af71fb9f209e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 20/31] fix: after RENUM the program still ran with its old
 line numbers

---
 Basic/run.c           | 5 +++++
 Basic/run.h           | 1 +
 Monitor/interactive.c | 1 +
 3 files changed, 7 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 6085aac..a727d24 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -262,6 +262,11 @@ SOURCE* vm_stored_source(VM* vm) {
   return vm->stored_program.source;
 }
 
+// The caller has changed the stored program source.
+void vm_source_changed(VM* vm) {
+  stored_program_changed(vm);
+}
+
 static void run(VM*);
 
 void run_program(VM* vm) {
diff --git a/Basic/run.h b/Basic/run.h
index 3fe34b6..82aa783 100644
--- a/Basic/run.h
+++ b/Basic/run.h
@@ -19,6 +19,7 @@ bool vm_save_source(VM*, const char* name);
 bool vm_load_source(VM*, const char* name);
 
 SOURCE* vm_stored_source(vm);
+void vm_source_changed(VM*);
 
 // Compile and run code.
 void vm_compile(VM*);
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index df05ebf..7c16ab4 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -376,6 +376,7 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
     if (lookup_line_mapping(map, source_linenum(source, line), &new_basic_line))
       set_source_linenum(source, line, new_basic_line);
   }
+  vm_source_changed(vm);
 
   // update line numbers in source text
   for (unsigned line = 0; line < source_lines(source); line++) {
-- 
2.43.0


From 6dd0f60b10d41bb9f0841e61f9f668342ad0313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:36 +0000
Subject: [PATCH 21/31] fix: RENUM changed only the first line number of an ON
 list, and changed DATA

---
 Monitor/interactive.c | 64 +++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 7c16ab4..8bd41ce 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -334,6 +334,7 @@ static void list(const VM* vm, unsigned start, unsigned end, bool page) {
 }
 
 static bool takes_line_number(int token);
+static int skip_data(LEX*);
 
 static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned inc) {
   SOURCE* source = vm_stored_source(vm);
@@ -382,32 +383,42 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   for (unsigned line = 0; line < source_lines(source); line++) {
     int tok = lex_line(lex, line, source_text(source, line));
     while (tok != TOK_EOF && tok != '\n') {
-      if (takes_line_number(tok)) {
+      if (tok == TOK_REM)
+        break;
+      if (tok == TOK_DATA) {
+        tok = skip_data(lex);
+        continue;
+      }
+      if (!takes_line_number(tok)) {
+        tok = lex_next(lex);
+        continue;
+      }
+      // ON ... GOTO and ON ... GOSUB take a list of line numbers
+      const bool list = tok == TOK_GOTO || tok == TOK_GOSUB;
+      do {
         tok = lex_next(lex);
         if (tok != TOK_NUM)
-          continue; // might itself take a line number: THEN GOTO 100
-        {
-          double x = lex_num(lex);
-          if (x > 0 && x <= (U16)(-1) && floor(x) == x) {
-            unsigned basic_line = (unsigned) x;
-            unsigned new_basic_line;
-            if (lookup_line_mapping(map, basic_line, &new_basic_line)) {
-              char num[16];
-              sprintf(num, "%u", new_basic_line);
-              if (!source_replace(source, line, lex_token_pos(lex), lex_word(lex), num)) {
-                error("internal error: renumbering: replacing line number in source line");
-                goto bail;
-              }
-              tok = lex_refresh(lex, source_text(source, line));
-              if (tok != TOK_NUM) {
-                error("internal error: renumbering: retokenising update source text");
-                goto bail;
-              }
+          break; // might itself take a line number: THEN GOTO 100
+        double x = lex_num(lex);
+        if (x > 0 && x <= (U16)(-1) && floor(x) == x) {
+          unsigned basic_line = (unsigned) x;
+          unsigned new_basic_line;
+          if (lookup_line_mapping(map, basic_line, &new_basic_line)) {
+            char num[16];
+            sprintf(num, "%u", new_basic_line);
+            if (!source_replace(source, line, lex_token_pos(lex), lex_word(lex), num)) {
+              error("internal error: renumbering: replacing line number in source line");
+              goto bail;
+            }
+            tok = lex_refresh(lex, source_text(source, line));
+            if (tok != TOK_NUM) {
+              error("internal error: renumbering: retokenising update source text");
+              goto bail;
             }
           }
         }
-      }
-      tok = lex_next(lex);
+        tok = lex_next(lex);
+      } while (list && tok == ',');
     }
   }
 
@@ -428,6 +439,17 @@ static bool takes_line_number(int token) {
       return false;
 }
 
+// Skip DATA items, which are not tokens.
+static int skip_data(LEX* lex) {
+  int tok;
+  do {
+    if (lex_next_data(lex) == NULL)
+      return lex_token(lex);
+    tok = lex_next(lex);
+  } while (tok == ',');
+  return tok;
+}
+
 static void await_newline(void) {
   fflush(stdout);
   int c;
-- 
2.43.0


From c980b0731200206d19076dadfa9f0752297bdd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:38 +0000
Subject: [PATCH 22/31] fix: a string as a power in the argument of RND was not
 reported

---
 Basic/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index 6f9eba6..f917128 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -813,7 +813,7 @@ static int power_expr(PARSER* parser) {
     lex_next(parser->lex);
     int type2 = power_expr(parser);
     if (type2 != TYPE_NUM)
-      return TYPE_ERR;
+      parse_error_no_token(parser, "Invalid types for power operator");
     emit(parser->bcode, B_POW);
   }
 
-- 
2.43.0


From 39c3d828bba589cd02bd40d6a063b656e215ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 23/31] fix: CONT after a break could skip a STOP or look past
 the end of the program

---
 Basic/run.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index a727d24..ede4a08 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -370,8 +370,11 @@ static void run(VM* vm) {
   // On normal program end, clear program stopped state.
   // After running immediate code, leave program stopped state alone.
   if (vm->code_state.code == &vm->stored_program) {
-    if (vm->stopped || interrupted)
+    if (vm->stopped || interrupted) {
       vm->stopped_program = vm->code_state;
+      if (vm->stopped)
+        vm->stopped_program.pc++; // continue after STOP
+    }
     else
       clear_code_state(&vm->stopped_program);
   }
@@ -391,11 +394,9 @@ bool vm_continue(VM* vm) {
     return false;
   if (vm->stopped_program.code->bcode == NULL)
     return false;
-  vm->code_state = vm->stopped_program;
   // If continuing from STOP, continue from PC after STOP.
   // If continuing from interrupt, continue from where we are (effects not guaranteed).
-  if (vm->stopped_program.code->bcode->inst[vm->stopped_program.pc].op == B_STOP)
-    vm->code_state.pc++;
+  vm->code_state = vm->stopped_program;
   run(vm);
   return true;
 }
-- 
2.43.0


From 46bcfb9c9513c1a2e370bf61dedbfdc5f4fbb669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:00 +0000
Subject: [PATCH 24/31] fix: a break could leave an expression or function call
 unfinished

---
 Basic/run.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index ede4a08..53cf762 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -335,6 +335,7 @@ static bool immediate_state(VM* vm) {
 }
 
 static void execute(VM*);
+static bool between_operations(const VM*);
 static void abandon_statement(VM*);
 static void report_for_in_progress(VM*);
 static void end_def(VM*);
@@ -347,7 +348,7 @@ static void run(VM* vm) {
   vm->col = 1; // anything printed earlier was followed by a newline or a prompt
   trap_interrupt();
   if (setjmp(vm->errjmp) == 0) {
-    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
+    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !(interrupted && between_operations(vm)))
       execute(vm);
   }
   else
@@ -380,6 +381,11 @@ static void run(VM* vm) {
   }
 }
 
+// Whether no expression or function call is part way through.
+static bool between_operations(const VM* vm) {
+  return vm->sp == 0 && vm->ssp == 0 && vm->fn.code_state.code == NULL;
+}
+
 // After a run-time error, discard whatever the failed statement left unfinished,
 // so that it cannot affect statements run later.
 static void abandon_statement(VM* vm) {
-- 
2.43.0


From b62dbc3fe8d395f06cba29517b1b1c32763adb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:24 +0000
Subject: [PATCH 25/31] fix: an array subscript of 4294967295 crashed the
 interpreter

---
 Basic/arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/arrays.c b/Basic/arrays.c
index 1e44d3d..de659ef 100644
--- a/Basic/arrays.c
+++ b/Basic/arrays.c
@@ -15,7 +15,7 @@ static bool compute_total_elements(unsigned base, unsigned dimensions, const uns
     if (max[i] < base)
       return false;
     unsigned size = max[i] - base + 1;
-    if (size > MAX_ELEMENTS / *elements)
+    if (size == 0 || size > MAX_ELEMENTS / *elements) // 0 if size wraps round
       return false;
     *elements *= size;
   }
-- 
2.43.0


From 73eda9526291b06eae8d4092e435574b36ef0ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:27 +0000
Subject: [PATCH 26/31] fix: --list-names listed words in DATA items

---
 System/lbasic.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/System/lbasic.c b/System/lbasic.c
index bcfe3ae..7ac777a 100644
--- a/System/lbasic.c
+++ b/System/lbasic.c
@@ -184,7 +184,13 @@ static void list_names(const char* file_name, bool crunched) {
       while (t != '\n' && t != TOK_REM) {
         if (t == TOK_ID)
           insert_unique_string(names, lex_word(lex));
-        t = lex_next(lex);
+        if (t == TOK_DATA) { // skip DATA items, which are not names
+          do {
+            t = lex_next_data(lex) ? lex_next(lex) : lex_token(lex);
+          } while (t == ',');
+        }
+        else
+          t = lex_next(lex);
       }
     }
 
-- 
2.43.0


From f8a94188baa7cdff3211f52577a2c58f5545463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:41 +0000
Subject: [PATCH 27/31] fix: a value assigned by NEXT after CLEAR was read as 0

---
 Basic/run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/run.c b/Basic/run.c
index 53cf762..2b0dd6a 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1558,6 +1558,7 @@ static void next(VM* vm, int si) {
   }
   else {
     sym->val.num = x;
+    sym->defined = true; // CLEAR might have undefined it
     vm->code_state = f->code_state;
   }
   if (vm->trace_for)
-- 
2.43.0


From 450047cc1c20e09fc601a387e979897939bb6e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:48 +0000
Subject: [PATCH 28/31] fix: a GOSUB to a missing line used up one of the eight
 returns

---
 Basic/run.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 2b0dd6a..dfd08cb 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -741,6 +741,7 @@ static void execute(VM* vm) {
       }
       break;
     case B_GOSUB:
+      find_basic_line(vm, i->u.basic_line.lineno); // fail before recording a return
       push_return(vm, vm->code_state.pc + 1);
       go_to_basic_line(vm, i->u.basic_line.lineno);
       return;
@@ -858,6 +859,7 @@ static void execute(VM* vm) {
       unsigned k = vm->code_state.pc + (unsigned) x;
       if (k >= vm->code_state.code->bcode->used || vm->code_state.code->bcode->inst[k].op != B_ON_LINE)
         run_error(vm, "internal error: ON-LINE expected\n");
+      find_basic_line(vm, vm->code_state.code->bcode->inst[k].u.basic_line.lineno);
       if (i->op == B_ON_GOSUB)
         push_return(vm, vm->code_state.pc + i->u.count + 1);
       go_to_basic_line(vm, vm->code_state.code->bcode->inst[k].u.basic_line.lineno);
-- 
2.43.0


From b057e975728f7e9b29bcb6ec015228593ebf5f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:59 +0000
Subject: [PATCH 29/31] fix: a program that failed while being interrupted
 could be continued

---
 Basic/run.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index dfd08cb..1765186 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -344,6 +344,7 @@ static void end_def(VM*);
 static void run(VM* vm) {
   assert(vm->code_state.code != NULL);
 
+  bool failed = false;
   vm->stopped = false;
   vm->col = 1; // anything printed earlier was followed by a newline or a prompt
   trap_interrupt();
@@ -351,11 +352,15 @@ static void run(VM* vm) {
     while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !(interrupted && between_operations(vm)))
       execute(vm);
   }
-  else
+  else {
     abandon_statement(vm);
+    failed = true;
+  }
   untrap_interrupt();
 
-  if (interrupted)
+  if (failed)
+    ; // already reported
+  else if (interrupted)
     puts("Break");
   else if (vm->stopped) {
     print_source_line(vm->code_state.code->source, vm->code_state.source_line, stdout);
@@ -371,7 +376,7 @@ static void run(VM* vm) {
   // On normal program end, clear program stopped state.
   // After running immediate code, leave program stopped state alone.
   if (vm->code_state.code == &vm->stored_program) {
-    if (vm->stopped || interrupted) {
+    if (!failed && (vm->stopped || interrupted)) {
       vm->stopped_program = vm->code_state;
       if (vm->stopped)
         vm->stopped_program.pc++; // continue after STOP
-- 
2.43.0


From c9578081c3330251dace5b07b30c8f260b12cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 30/31] fix: a program with more than 65536 names confused its
 variables

Symbol identifiers were 16 bits wide, so the identifier of the 65537th name
was that of another name, or of none.
---
 Basic/symbol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/symbol.h b/Basic/symbol.h
index 4496a03..f66322c 100644
--- a/Basic/symbol.h
+++ b/Basic/symbol.h
@@ -18,7 +18,7 @@ enum symbol_kind {
 
 const char* symbol_kind(int kind);
 
-typedef unsigned short SYMID;
+typedef unsigned SYMID;
 
 typedef struct symbol {
   char* name;
-- 
2.43.0


From fe4cf954ce2e29506bf19624212be137ef16c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 31/31] fix: LOAD refused a line that RENUM had lengthened and
 SAVE had written

Source files are read with lines of any length.
---
 Basic/source.c | 52 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index c3a84e9..5565f99 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -176,32 +176,50 @@ void delete_source_line(SOURCE* src, unsigned line) {
   }
 }
 
+// Read a line, of any length, into the buffer, which grows as required.
+// Return false at end of file or on error.
+static bool read_source_line(FILE* fp, char* *buf, size_t *bufsz, size_t *len) {
+  int c;
+  *len = 0;
+  while ((c = getc(fp)) != EOF && c != '\n') {
+    if (*len + 1 >= *bufsz) {
+      *bufsz = *bufsz ? 2 * *bufsz : 256;
+      *buf = erealloc(*buf, *bufsz);
+    }
+    (*buf)[(*len)++] = c;
+  }
+  if (*len > 0)
+    (*buf)[*len] = '\0';
+  return c == '\n' || *len > 0; // the last line might have no newline
+}
+
 // Read all lines of the file into the source and return true,
 // or report an error and return false.
 static bool read_source(SOURCE* src, FILE* fp) {
-  char buf[256];
-  while (fgets(buf, sizeof buf, fp)) {
-    size_t len = strlen(buf);
-    if (len > 0 && buf[len-1] == '\n')
-      buf[--len] = '\0';
-    else if (!feof(fp)) { // the last line might have no newline
-      source_error(src, "source line is too long\n");
-      return false;
-    }
+  char* buf = NULL;
+  size_t bufsz = 0;
+  size_t len;
+  bool succ = true;
+  while (succ && read_source_line(fp, &buf, &bufsz, &len)) {
+    unsigned num;
+    const char* text;
     if (len == 0) {
       source_error(src, "source line is empty\n");
-      return false;
+      succ = false;
     }
-    unsigned num;
-    const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL || !append(src, num, text))
-      return false;
+    else if (strlen(buf) != len) {
+      source_error(src, "source line has a null character\n");
+      succ = false;
+    }
+    else if ((text = parse_line_number(src, buf, &num)) == NULL || !append(src, num, text))
+      succ = false;
   }
-  if (ferror(fp)) {
+  if (succ && ferror(fp)) {
     source_error(src, "error reading source file\n");
-    return false;
+    succ = false;
   }
-  return true;
+  efree(buf);
+  return succ;
 }
 
 SOURCE* load_source_file(const char* name) {
-- 
2.43.0

