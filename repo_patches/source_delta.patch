From ad61bcd534701b56567d0901b8177948948c6483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 01/34] fix: report errors when writing an output file instead
 of exiting with status 0

---
 main.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/main.c b/main.c
index 8bfae0a..0949033 100644
--- a/main.c
+++ b/main.c
@@ -562,6 +562,15 @@ static FILE *open_file(char *path) {
   return out;
 }
 
+// Flush or close an output file and make sure that everything was written.
+static void close_file(FILE *out, char *path) {
+  bool failed = ferror(out);
+  if (out == stdout ? fflush(out) : fclose(out))
+    failed = true;
+  if (failed)
+    error("cannot write output file: %s: %s", path ? path : "-", strerror(errno));
+}
+
 static bool endswith(char *p, char *q) {
   int len1 = strlen(p);
   int len2 = strlen(q);
@@ -662,10 +671,7 @@ static void print_tokens(Token *tok, char *path) {
   }
   fprintf(out, "\n");
 
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, path);
 }
 
 bool in_sysincl_path(char *path) {
@@ -717,10 +723,7 @@ static void print_dependencies(char *input) {
       fprintf(out, "%s:\n\n", quote_makefile(name));
     }
   }
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, path);
 }
 
 static Token *must_tokenize_file(char *path, Token **end) {
@@ -790,10 +793,7 @@ static void cc1(char *input_file, char *output_file, bool is_asm_pp) {
   FILE *out = open_file(output_file);
   codegen(prog, out);
 
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, output_file);
 }
 
 void run_assembler_gnustyle( StringArray *args, char *input, char *output) {
-- 
2.43.0


From 5e2d276e3294421a17d1cde999de002f5d5636b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 02/34] fix: do not treat read errors and failed lookups as end
 of file or absent file

---
 main.c       | 14 +++++++++++++-
 preprocess.c | 10 ++++++++--
 tokenize.c   |  9 +++++++++
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/main.c b/main.c
index 0949033..d423a6b 100644
--- a/main.c
+++ b/main.c
@@ -837,7 +837,19 @@ char *find_dir_w_file(char *pattern) {
 // Returns true if a given file exists.
 bool file_exists(char *path) {
   struct stat st;
-  return !stat(path, &st);
+  if (!stat(path, &st))
+    return true;
+
+  // Any other failure says nothing about whether the file is there.
+  switch (errno) {
+  case ENOENT:
+  case ENOTDIR:
+  case EACCES:
+  case ELOOP:
+  case ENAMETOOLONG:
+    return false;
+  }
+  error("%s: %s", path, strerror(errno));
 }
 
 char *source_dir(void) {
diff --git a/preprocess.c b/preprocess.c
index 673b28c..c905a17 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1143,10 +1143,14 @@ static Token *embed_file(Token *cont, Token *tok, char *path, Token *start) {
     if (tok->kind != TK_EOF)
       return to_int_token(start, EMBED_NOT_FOUND);
 
-    FILE *fp;
-    if (!path || !(fp = fopen(path, "r")))
+    if (!path)
       return to_int_token(start, EMBED_NOT_FOUND);
+    FILE *fp = fopen(path, "r");
+    if (!fp)
+      error_tok(start, "%s: cannot open file: %s", path, strerror(errno));
     bool is_empty = !fread(&(char){0}, 1, sizeof(char), fp);
+    if (ferror(fp))
+      error_tok(start, "%s: cannot read file: %s", path, strerror(errno));
     fclose(fp);
     if (is_empty || (limit_seq && limit == 0))
       return to_int_token(start, EMBED_EMPTY);
@@ -1172,6 +1176,8 @@ static Token *embed_file(Token *cont, Token *tok, char *path, Token *start) {
     cur = cur->next = new_num_token(buf, start);
     cur->at_bol = false;
   }
+  if (ferror(fp))
+    error_tok(start, "%s: cannot read file: %s", path, strerror(errno));
   fclose(fp);
   if (cur == &head) {
     if (if_empty_seq)
diff --git a/tokenize.c b/tokenize.c
index 3554614..313bd4c 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -817,6 +817,15 @@ static char *read_file(char *path) {
     fwrite(buf2, 1, n, out);
   }
 
+  if (ferror(fp)) {
+    int err = errno;
+    if (fp != stdin)
+      fclose(fp);
+    fclose(out);
+    errno = err;
+    return NULL;
+  }
+
   if (fp != stdin)
     fclose(fp);
 
-- 
2.43.0


From f0b6de75584651b3baa629b67779ec0de4863e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:04 +0000
Subject: [PATCH 03/34] fix: wait for the very process that was started and
 report fork failures

---
 main.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/main.c b/main.c
index d423a6b..6b4e1f5 100644
--- a/main.c
+++ b/main.c
@@ -602,6 +602,18 @@ static char *create_tmpfile(void) {
   return path;
 }
 
+// Wait for the given child process to finish successfully.
+static void wait_child(pid_t pid) {
+  int status;
+  pid_t ret;
+  do {
+    ret = waitpid(pid, &status, 0);
+  } while (ret == -1 && errno == EINTR);
+
+  if (ret != pid || status != 0)
+    exit(1);
+}
+
 void run_subprocess(char **argv) {
   // If -### is given, dump the subprocess's command line.
   if (opt_hash_hash_hash) {
@@ -612,17 +624,18 @@ void run_subprocess(char **argv) {
     return;
   }
 
-  if (fork() == 0) {
+  pid_t pid = fork();
+  if (pid == -1)
+    error("fork failed: %s", strerror(errno));
+
+  if (pid == 0) {
     // Child process. Run a new command.
     execvp(argv[0], argv);
     fprintf(stderr, "exec failed: %s: %s\n", argv[0], strerror(errno));
     _exit(1);
   }
 
-  // Wait for the child process to finish.
-  int status;
-  if (wait(&status) <= 0 || status != 0)
-    exit(1);
+  wait_child(pid);
 }
 
 static void run_cc1(char *input, char *output, bool no_fork, bool is_asm_pp) {
@@ -634,15 +647,16 @@ static void run_cc1(char *input, char *output, bool no_fork, bool is_asm_pp) {
     return;
   }
 
-  if (fork() == 0) {
+  pid_t pid = fork();
+  if (pid == -1)
+    error("fork failed: %s", strerror(errno));
+
+  if (pid == 0) {
     cc1(input, output, is_asm_pp);
     _exit(0);
   }
 
-  // Wait for the child process to finish.
-  int status;
-  if (wait(&status) <= 0 || status != 0)
-    exit(1);
+  wait_child(pid);
 }
 
 // Print tokens to stdout. Used for -E.
-- 
2.43.0


From 45bf69a992df3a0afd4df5d6c8b0bf65feb69721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 04/34] fix: do not replace the dependency file when the input
 is rejected

---
 main.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/main.c b/main.c
index 6b4e1f5..c56201e 100644
--- a/main.c
+++ b/main.c
@@ -788,16 +788,17 @@ static void cc1(char *input_file, char *output_file, bool is_asm_pp) {
   cur->next = must_tokenize_file(input_file, NULL);
   Token *tok = preprocess(head.next, input_file);
 
-  // If -M or -MD are given, print file dependencies.
-  if (opt_M || opt_MD) {
+  // If -M is given, print only file dependencies.
+  if (opt_M) {
     print_dependencies(input_file);
-    if (opt_M)
-      return;
+    return;
   }
 
   // If -E is given, print out preprocessed C code as a result.
   if (opt_E) {
     print_tokens(tok, output_file);
+    if (opt_MD)
+      print_dependencies(input_file);
     return;
   }
 
@@ -806,8 +807,12 @@ static void cc1(char *input_file, char *output_file, bool is_asm_pp) {
   // Write the asembly text to a file.
   FILE *out = open_file(output_file);
   codegen(prog, out);
-
   close_file(out, output_file);
+
+  // If -MD is given, print file dependencies too. A rejected input must not
+  // replace the dependencies of an earlier successful run.
+  if (opt_MD)
+    print_dependencies(input_file);
 }
 
 void run_assembler_gnustyle( StringArray *args, char *input, char *output) {
-- 
2.43.0


From 35698fa3e22f804272782f87a0ce9402c20c1101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 05/34] fix: list embedded files as dependencies and quote all
 file names in dependency rules

---
 main.c       |  6 +++---
 preprocess.c | 12 ++++++++++++
 tokenize.c   | 11 ++++++++++-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/main.c b/main.c
index c56201e..7a54959 100644
--- a/main.c
+++ b/main.c
@@ -724,15 +724,15 @@ static void print_dependencies(char *input) {
     char *name = files[i]->name;
     if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input)
       continue;
-    fprintf(out, " \\\n  %s", name);
+    fprintf(out, " \\\n  %s", quote_makefile(name));
   }
 
   fprintf(out, "\n\n");
 
   if (opt_MP) {
-    for (int i = 1; files[i]; i++) {
+    for (int i = 0; files[i]; i++) {
       char *name = files[i]->name;
-      if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input)
+      if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input || !strcmp(name, input))
         continue;
       fprintf(out, "%s:\n\n", quote_makefile(name));
     }
diff --git a/preprocess.c b/preprocess.c
index c905a17..0b68a74 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1110,6 +1110,16 @@ static Token *include_file(Token *tok, char *path, Token *filename_tok, int *inc
   return start;
 }
 
+// Embedded files are not tokenized, but the output depends on them.
+static void add_embed_dependency(char *path, Token *start) {
+  File *file = add_input_file(path, NULL, NULL);
+  if (!file->is_input) {
+    file->is_input = true;
+    file->incl_no = -1;
+    file->is_syshdr = start->file->is_syshdr || in_sysincl_path(path);
+  }
+}
+
 static Token *embed_file(Token *cont, Token *tok, char *path, Token *start) {
   Token *limit_seq = NULL;
   Token *if_empty_seq = NULL;
@@ -1148,6 +1158,7 @@ static Token *embed_file(Token *cont, Token *tok, char *path, Token *start) {
     FILE *fp = fopen(path, "r");
     if (!fp)
       error_tok(start, "%s: cannot open file: %s", path, strerror(errno));
+    add_embed_dependency(path, start);
     bool is_empty = !fread(&(char){0}, 1, sizeof(char), fp);
     if (ferror(fp))
       error_tok(start, "%s: cannot read file: %s", path, strerror(errno));
@@ -1162,6 +1173,7 @@ static Token *embed_file(Token *cont, Token *tok, char *path, Token *start) {
   FILE *fp;
   if (!path || !(fp = fopen(path, "r")))
     error_tok(start, "%s: cannot open file: %s", path, strerror(errno));
+  add_embed_dependency(path, start);
 
   Token head = {0};
   Token *cur = &head;
diff --git a/tokenize.c b/tokenize.c
index 313bd4c..db23570 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -934,8 +934,17 @@ File *add_input_file(char *path, char *contents, int *incl_no) {
   static HashMap input_files_map;
 
   File *file = hashmap_get(&input_files_map, path);
-  if (file)
+  if (file) {
+    // The name may so far be known only from #line or #embed.
+    if (!file->contents && contents) {
+      file->contents = contents;
+      if (incl_no) {
+        file->is_input = true;
+        file->incl_no = *incl_no;
+      }
+    }
     return file;
+  }
 
   static int file_no;
   file = new_file(path, file_no + 1, contents);
-- 
2.43.0


From 94fbd1d5b6c09c086dd4864f1c1d2c0d4627dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 06/34] fix: remove an output file that could not be written
 completely

---
 main.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 7a54959..3e7772d 100644
--- a/main.c
+++ b/main.c
@@ -564,11 +564,18 @@ static FILE *open_file(char *path) {
 
 // Flush or close an output file and make sure that everything was written.
 static void close_file(FILE *out, char *path) {
+  struct stat st;
+  bool is_regular = out != stdout && !fstat(fileno(out), &st) && S_ISREG(st.st_mode);
+
   bool failed = ferror(out);
   if (out == stdout ? fflush(out) : fclose(out))
     failed = true;
-  if (failed)
-    error("cannot write output file: %s: %s", path ? path : "-", strerror(errno));
+  if (failed) {
+    int err = errno;
+    if (is_regular)
+      unlink(path);
+    error("cannot write output file: %s: %s", path ? path : "-", strerror(err));
+  }
 }
 
 static bool endswith(char *p, char *q) {
-- 
2.43.0


From 660666e2edfcf6cf7892c4c67c65e1205ba5251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 07/34] fix: do not run the linker when -c, -S, -E or -M is
 given

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 3e7772d..ad0b81d 100644
--- a/main.c
+++ b/main.c
@@ -1182,7 +1182,7 @@ int main(int argc, char **argv) {
     continue;
   }
 
-  if (ld_args.len) {
+  if (ld_args.len && !(opt_c || opt_S || opt_E || opt_M)) {
     for (int i = 0; i < ld_extra_args.len; i++)
       strarray_push(&ld_args, ld_extra_args.data[i]);
 
-- 
2.43.0


From faa7c5ef2e752aaff6849ac9602fa9638110f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 08/34] fix: stop with an error when memory for text or initial
 data cannot be allocated

---
 codegen.c    |  6 ++++--
 main.c       | 12 ++++++------
 parse.c      |  6 +++++-
 preprocess.c | 12 ++++++------
 slimcc.h     |  2 ++
 strings.c    | 19 +++++++++++++++++--
 tokenize.c   |  5 ++++-
 7 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/codegen.c b/codegen.c
index 9748ec2..e6b4dbe 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3145,7 +3145,7 @@ static void asm_constraint(AsmParam *ap, int x87_clobber) {
 
     if (!strncmp(p, "=@cc", 4)) {
       ap->kind = ASMOP_FLAG;
-      ap->flag = strdup(&p[4]);
+      ap->flag = copy_str(&p[4]);
       continue;
     }
     for (; *p; p++) {
@@ -4221,7 +4221,9 @@ void *prepare_funcgen(void) {
 }
 
 void end_funcgen(void) {
-  fclose(output_file);
+  bool failed = ferror(output_file);
+  if (fclose(output_file) || failed)
+    error("cannot buffer function: %s", strerror(errno));
   output_file = NULL;
 
   {
diff --git a/main.c b/main.c
index ad0b81d..ca23124 100644
--- a/main.c
+++ b/main.c
@@ -101,7 +101,7 @@ static bool take_arg_s(char **argv, int *i, char **p, char *str) {
 
 static bool comma_arg(char *arg, StringArray *arr, char *str) {
   if (startswith(arg, &arg, str)) {
-    arg = strtok(strdup(arg), ",");
+    arg = strtok(copy_str(arg), ",");
     while (arg) {
       strarray_push(arr, arg);
       arg = strtok(NULL, ",");
@@ -125,7 +125,7 @@ void add_include_path(StringArray *arr, char *path) {
   }
 
   if (len != orig_len)
-    path = strndup(path, len);
+    path = copy_strn(path, len);
 
   strarray_push(arr, path);
 }
@@ -586,7 +586,7 @@ static bool endswith(char *p, char *q) {
 
 // Replace file extension
 static char *replace_extn(char *tmpl, char *extn) {
-  char *filename = basename(strdup(tmpl));
+  char *filename = basename(copy_str(tmpl));
   char *dot = strrchr(filename, '.');
   if (dot)
     *dot = '\0';
@@ -599,7 +599,7 @@ static void cleanup(void) {
 }
 
 static char *create_tmpfile(void) {
-  char *path = strdup("/tmp/slimcc-XXXXXX");
+  char *path = copy_str("/tmp/slimcc-XXXXXX");
   int fd = mkstemp(path);
   if (fd == -1)
     error("mkstemp failed: %s", strerror(errno));
@@ -844,7 +844,7 @@ static char *find_file(char *pattern) {
   glob_t buf = {0};
   glob(pattern, 0, NULL, &buf);
   if (buf.gl_pathc > 0)
-    path = strdup(buf.gl_pathv[buf.gl_pathc - 1]);
+    path = copy_str(buf.gl_pathv[buf.gl_pathc - 1]);
   globfree(&buf);
   return path;
 }
@@ -881,7 +881,7 @@ bool file_exists(char *path) {
 char *source_dir(void) {
   static char *path;
   if (!path)
-    path = format("%s", dirname(strdup(argv0)));
+    path = format("%s", dirname(copy_str(argv0)));
   return path;
 }
 
diff --git a/parse.c b/parse.c
index 227a82b..c10faba 100644
--- a/parse.c
+++ b/parse.c
@@ -523,7 +523,7 @@ static DeferStmt *new_defr(DeferKind kind) {
 static char *get_ident(Token *tok) {
   if (tok->kind != TK_IDENT)
     error_tok(tok, "expected an identifier");
-  return strndup(tok->loc, tok->len);
+  return copy_strn(tok->loc, tok->len);
 }
 
 static Type *find_typedef(Token *tok) {
@@ -2177,6 +2177,8 @@ static void gvar_initializer(Token **rest, Token *tok, Obj *var) {
 
   Relocation head = {0};
   char *buf = calloc(1, var->ty->size);
+  if (!buf && var->ty->size >= 0)
+    error("out of memory");
   write_gvar_data(&head, &init, var->ty, buf, 0, EV_LABEL);
   free_initializers(&init);
 
@@ -2190,6 +2192,8 @@ static void constexpr_initializer(Token **rest, Token *tok, Obj *init_var, Obj *
 
   Relocation head = {0};
   char *buf = calloc(1, init_var->ty->size);
+  if (!buf && init_var->ty->size >= 0)
+    error("out of memory");
   write_gvar_data(&head, &init, init_var->ty, buf, 0, EV_CONST);
   free_initializers(&init);
 
diff --git a/preprocess.c b/preprocess.c
index 0b68a74..49c5d88 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -454,7 +454,7 @@ static Macro *read_macro_params(char *name, Token **rest, Token *tok) {
 static Macro *read_macro_name(Token **rest, Token *tok) {
   if (tok->kind != TK_IDENT)
     error_tok(tok, "macro name must be an identifier");
-  char *name = strndup(tok->loc, tok->len);
+  char *name = copy_strn(tok->loc, tok->len);
   tok = tok->next;
 
   Macro *m;
@@ -1005,7 +1005,7 @@ static char *search_include_paths3(char *filename, int *incl_no) {
 
 static char *search_include_paths2(char *filename, Token *start, bool is_dquote, int *incl_no) {
   if (filename[0] != '/' && is_dquote) {
-    char *path = format("%s/%s", dirname(strdup(start->file->name)), filename);
+    char *path = format("%s/%s", dirname(copy_str(start->file->name)), filename);
     if (file_exists(path)) {
       return path;
     }
@@ -1046,7 +1046,7 @@ static char *read_filename(Token **rest, Token *tok, bool *is_dquote) {
     // For example, "\f" in "C:\foo" is not a formfeed character but
     // just two non-control characters, backslash and f.
     // So we don't want to use token->str.
-    filename = strndup(tok->loc + 1, tok->len - 2);
+    filename = copy_strn(tok->loc + 1, tok->len - 2);
     *is_dquote = true;
   } else if (equal(tok, "<")) {
     // Pattern 2: #include <foo.h>
@@ -1059,7 +1059,7 @@ static char *read_filename(Token **rest, Token *tok, bool *is_dquote) {
         error_tok(tok, "expected '>'");
 
     if (!is_expanded && start->file == tok->file && start->loc < tok->loc)
-      filename = strndup(start->loc + 1, tok->loc - start->loc - 1);
+      filename = copy_strn(start->loc + 1, tok->loc - start->loc - 1);
     else
       filename = join_tokens(start->next, tok, false);
     *is_dquote = false;
@@ -1306,7 +1306,7 @@ static Token *directives(Token **cur, Token *start) {
     tok = tok->next;
     if (tok->kind != TK_IDENT)
       error_tok(tok, "macro name must be an identifier");
-    undef_macro(strndup(tok->loc, tok->len));
+    undef_macro(copy_strn(tok->loc, tok->len));
     tok = skip_line(tok->next);
     return tok;
   }
@@ -1397,7 +1397,7 @@ static Token *directives(Token **cur, Token *start) {
 
     if (tok->is_incl_guard && cond->tok->is_incl_guard && tok->file == cond->tok->file) {
       Token *name_tok = cond->tok->next;
-      char *guard_name = strndup(name_tok->loc, name_tok->len);
+      char *guard_name = copy_strn(name_tok->loc, name_tok->len);
       hashmap_put(&include_guards, tok->file->name, guard_name);
     }
 
diff --git a/slimcc.h b/slimcc.h
index 8590058..aa41552 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -132,6 +132,8 @@ typedef struct {
 
 void strarray_push(StringArray *arr, char *s);
 char *format(char *fmt, ...) FMTCHK(1,2);
+char *copy_str(char *s);
+char *copy_strn(char *s, size_t len);
 
 //
 // tokenize.c
diff --git a/strings.c b/strings.c
index 2ac4382..3a3bff7 100644
--- a/strings.c
+++ b/strings.c
@@ -24,8 +24,23 @@ char *format(char *fmt, ...) {
 
   va_list ap;
   va_start(ap, fmt);
-  vfprintf(out, fmt, ap);
+  int len = vfprintf(out, fmt, ap);
   va_end(ap);
-  fclose(out);
+  if (fclose(out) || len < 0)
+    error("format failed: %s", strerror(errno));
   return buf;
 }
+
+static char *check_copy(char *copy) {
+  if (!copy)
+    error("out of memory");
+  return copy;
+}
+
+char *copy_str(char *s) {
+  return check_copy(strdup(s));
+}
+
+char *copy_strn(char *s, size_t len) {
+  return check_copy(strndup(s, len));
+}
diff --git a/tokenize.c b/tokenize.c
index db23570..e342711 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -834,7 +834,10 @@ static char *read_file(char *path) {
   if (buflen == 0 || buf[buflen - 1] != '\n')
     fputc('\n', out);
   fputc('\0', out);
-  fclose(out);
+
+  bool failed = ferror(out);
+  if (fclose(out) || failed)
+    error("%s: cannot buffer file: %s", path, strerror(errno));
   return buf;
 }
 
-- 
2.43.0


From 5986e32c9ad0be158e5b7d15d0bf6b756a2fdca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:06 +0000
Subject: [PATCH 09/34] fix: link a single preprocessed assembly input

---
 main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index ca23124..c42d1a9 100644
--- a/main.c
+++ b/main.c
@@ -1085,6 +1085,7 @@ int main(int argc, char **argv) {
     error("cannot specify '-o' with '-c,' '-S' or '-E' with multiple files");
 
   bool no_fork = (input_cnt == 1);
+  bool do_link = !(opt_c || opt_S || opt_E || opt_M);
   StringArray ld_args = {0};
   FileType opt_x = FILE_NONE;
 
@@ -1182,7 +1183,7 @@ int main(int argc, char **argv) {
     continue;
   }
 
-  if (ld_args.len && !(opt_c || opt_S || opt_E || opt_M)) {
+  if (ld_args.len && do_link) {
     for (int i = 0; i < ld_extra_args.len; i++)
       strarray_push(&ld_args, ld_extra_args.data[i]);
 
-- 
2.43.0


From 8b6d79bff9b91969d8137d418b5a4cf9a97a5d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 10/34] fix: keep types declared in a file-scope static
 assertion

---
 parse.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/parse.c b/parse.c
index c10faba..69b0340 100644
--- a/parse.c
+++ b/parse.c
@@ -4747,9 +4747,7 @@ Obj *parse(Token *tok) {
     arena_on(&node_arena);
 
     if (equal(tok, "_Static_assert") || equal_kw(tok, "static_assert")) {
-      arena_on(&ast_arena);
       static_assertion(&tok, tok->next);
-      arena_off(&ast_arena);
       arena_off(&node_arena);
       continue;
     }
-- 
2.43.0


From 5907e8d12155dffabab2f2e6e52ac06c3b520202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:48 +0000
Subject: [PATCH 11/34] fix: list a header user code includes even if a system
 header includes it again

---
 preprocess.c | 6 ++++--
 slimcc.h     | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 49c5d88..f05f1d7 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1103,8 +1103,10 @@ static Token *include_file(Token *tok, char *path, Token *filename_tok, int *inc
     start->next->next->kind == TK_IDENT && equal(end, "endif"))
     start->next->is_incl_guard = end->is_incl_guard = true;
 
-  if (tok->file->is_syshdr || in_sysincl_path(end->file->name))
-    end->file->is_syshdr = true;
+  // A header that user code includes too is not just a system header.
+  if (!tok->file->is_syshdr && !in_sysincl_path(end->file->name))
+    end->file->is_usrhdr = true;
+  end->file->is_syshdr = !end->file->is_usrhdr;
 
   end->next = tok;
   return start;
diff --git a/slimcc.h b/slimcc.h
index aa41552..f23f6e5 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -166,6 +166,7 @@ struct File {
   int line_delta;
   bool is_input;
   bool is_syshdr;
+  bool is_usrhdr;
 };
 
 // Token type
-- 
2.43.0


From 1d30620e28030a7969f8910463025ed2e1fed1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:56 +0000
Subject: [PATCH 12/34] fix: convert the operands of atomic assignment,
 exchange and compare-exchange

The value stored by _Atomic '=' , exchange and compare-exchange was not
converted to the object's type, compound assignment to an atomic pointer
crashed the compiler, and exchange of floating or sub-int objects returned
garbage. Diagnose types that have no single-instruction exchange.
---
 codegen.c | 21 ++++++++++++++++-----
 parse.c   |  6 ++++--
 type.c    | 14 ++++++++++++--
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/codegen.c b/codegen.c
index e6b4dbe..cfee050 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1797,9 +1797,6 @@ static void gen_expr2(Node *node, bool is_void) {
     char *ax = reg_ax(ty->size);
     char *dx = reg_dx(ty->size);
 
-    if (!is_scalar(ty) || ty->kind == TY_LDOUBLE)
-      error_tok(node->tok, "unsupported type for atomic CAS");
-
     switch (ty->kind) {
     case TY_DOUBLE: Printftn("movq %%xmm0, %s", dx); break;
     case TY_FLOAT: Printftn("movd %%xmm0, %s", dx); break;
@@ -1821,8 +1818,22 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_expr(node->rhs);
     char *reg = pop_inreg(tmpreg64[0]);
 
-    int sz = node->lhs->ty->base->size;
-    Printftn("xchg %s, (%s)", reg_ax(sz), reg);
+    Type *ty = node->ty;
+    char *ax = reg_ax(ty->size);
+
+    switch (ty->kind) {
+    case TY_DOUBLE: Printftn("movq %%xmm0, %s", ax); break;
+    case TY_FLOAT: Printftn("movd %%xmm0, %s", ax); break;
+    }
+    Printftn("xchg %s, (%s)", ax, reg);
+
+    switch (ty->kind) {
+    case TY_DOUBLE: Printftn("movq %s, %%xmm0", ax); return;
+    case TY_FLOAT: Printftn("movd %s, %%xmm0", ax); return;
+    }
+    if (ty->size < 4)
+      Printftn("%s%s %s, %%eax", ty->is_unsigned ? "movz" : "movs",
+        ty->size == 1 ? "bl" : "wl", ax);
     return;
   }
   case ND_ALLOCA:
diff --git a/parse.c b/parse.c
index 69b0340..9da6742 100644
--- a/parse.c
+++ b/parse.c
@@ -3205,6 +3205,9 @@ static Node *atomic_op(Node *binary, bool return_old) {
   Node head = {0};
   Node *cur = &head;
 
+  add_type(binary->lhs);
+  add_type(binary->rhs);
+
   Obj *addr = new_lvar(NULL, pointer_to(binary->lhs->ty));
   Obj *val = new_lvar(NULL, binary->rhs->ty);
   Obj *old = new_lvar(NULL, binary->lhs->ty);
@@ -3280,8 +3283,7 @@ static Node *assign(Token **rest, Token *tok) {
   // Convert A = B to (tmp = B, atomic_exchange(&A, tmp), tmp)
   if (equal(tok, "=") && node->ty->is_atomic) {
     Node *rhs = assign(rest, tok->next);
-    add_type(rhs);
-    Obj *tmp = new_lvar(NULL, rhs->ty);
+    Obj *tmp = new_lvar(NULL, unqual(node->ty));
     Node *expr = new_binary(ND_ASSIGN, new_var_node(tmp, tok), rhs, tok);
     chain_expr(&expr, new_binary(ND_EXCH, new_unary(ND_ADDR, node, tok),
                                           new_var_node(tmp, tok),
diff --git a/type.c b/type.c
index 4f2e385..e85e597 100644
--- a/type.c
+++ b/type.c
@@ -410,6 +410,10 @@ static void usual_arith_conv(Node **lhs, Node **rhs, bool handle_ptr) {
   *rhs = new_cast(*rhs, ty);
 }
 
+static bool is_lock_free(Type *ty) {
+  return (is_numeric(ty) && ty->kind != TY_LDOUBLE) || ty->kind == TY_PTR;
+}
+
 void add_type(Node *node) {
   if (!node || node->ty)
     return;
@@ -557,11 +561,17 @@ void add_type(Node *node) {
       error_tok(node->cas_addr->tok, "pointer expected");
     if (node->cas_old->ty->kind != TY_PTR)
       error_tok(node->cas_old->tok, "pointer expected");
+    if (!is_lock_free(node->cas_addr->ty->base))
+      error_tok(node->tok, "unsupported type for atomic CAS");
+    node->cas_new = new_cast(node->cas_new, node->cas_addr->ty->base);
     return;
   case ND_EXCH:
     if (node->lhs->ty->kind != TY_PTR)
-      error_tok(node->cas_addr->tok, "pointer expected");
-    node->ty = node->lhs->ty->base;
+      error_tok(node->lhs->tok, "pointer expected");
+    if (!is_lock_free(node->lhs->ty->base))
+      error_tok(node->tok, "unsupported type for atomic exchange");
+    node->ty = unqual(node->lhs->ty->base);
+    node->rhs = new_cast(node->rhs, node->ty);
     return;
   case ND_VA_START:
   case ND_VA_COPY:
-- 
2.43.0


From 9658ee44b2ffd157759e26dfe016670ad13f74c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:56 +0000
Subject: [PATCH 13/34] fix: keep the qualifiers of a typedef or member type
 when adding others

'volatile' or 'const' added to a typedef'd _Atomic type, an _Atomic member of
a volatile structure, and a typedef with an alignment attribute lost _Atomic
(and other qualifiers), so updates of the object were not atomic.
---
 parse.c | 8 ++++----
 type.c  | 5 +++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/parse.c b/parse.c
index 9da6742..6bd1b29 100644
--- a/parse.c
+++ b/parse.c
@@ -1014,10 +1014,10 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
 
   if (is_atomic || is_const || is_volatile || is_restrict) {
     Type *ty2 = new_qualified_type(ty);
-    ty2->is_atomic = is_atomic;
-    ty2->is_const = is_const;
-    ty2->is_volatile = is_volatile;
-    ty2->is_restrict = is_restrict;
+    ty2->is_atomic |= is_atomic;
+    ty2->is_const |= is_const;
+    ty2->is_volatile |= is_volatile;
+    ty2->is_restrict |= is_restrict;
     return ty2;
   }
 
diff --git a/type.c b/type.c
index e85e597..5ff398c 100644
--- a/type.c
+++ b/type.c
@@ -89,6 +89,7 @@ Type *unqual(Type *ty) {
 }
 
 Type *new_qualified_type(Type *ty) {
+  Type *qual = ty;
   if (ty->origin)
     ty = ty->origin;
 
@@ -100,6 +101,10 @@ Type *new_qualified_type(Type *ty) {
 
   *ret = *ty;
   ret->origin = ty;
+  ret->is_atomic = qual->is_atomic;
+  ret->is_const = qual->is_const;
+  ret->is_volatile = qual->is_volatile;
+  ret->is_restrict = qual->is_restrict;
 
   if (ty->size < 0) {
     ret->decl_next = ty->decl_next;
-- 
2.43.0


From a1019a6a2f4ca36ccfad42fd373bb1dee9f719d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:57 +0000
Subject: [PATCH 14/34] fix: post-increment and post-decrement of long double
 objects

Saving the old value popped it from the x87 stack before the addition used
it, so the object was set to NaN.
---
 codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen.c b/codegen.c
index cfee050..beb67ad 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1692,10 +1692,14 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_addr(node->lhs);
     Printstn("movq %%rax, %%rcx");
     load(node->lhs, 0);
+    if (node->lhs->ty->kind == TY_LDOUBLE)
+      Printstn("fld %%st(0)");
     push_by_ty(node->lhs->ty);
     push_from("%rcx");
     gen_expr_null_lhs(ND_ADD, node->lhs->ty, node->rhs);
     store(node->lhs, true);
+    if (node->lhs->ty->kind == TY_LDOUBLE)
+      Printstn("fstp %%st(0)");
     pop_by_ty(node->lhs->ty);
     return;
   case ND_STMT_EXPR:
-- 
2.43.0


From 3d0f7603351f06b8649622b64e6bf0a2ffe88a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:49 +0000
Subject: [PATCH 15/34] fix: accept computed and asm gotos to labels in the
 scope of a variable length array

---
 parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 6bd1b29..41bbac9 100644
--- a/parse.c
+++ b/parse.c
@@ -2273,6 +2273,7 @@ static AsmParam *asm_labels(Token **rest, Token *tok) {
     Node *node = new_node(ND_GOTO, tok);
     node->labels = ident_tok(&tok, tok);
     node->goto_next = gotos;
+    node->defr_start = current_defr;
     gotos = node;
 
     cur = cur->next = arena_calloc(&ast_arena, sizeof(AsmParam));
@@ -4528,7 +4529,7 @@ static void resolve_goto_labels(void) {
       error_tok(x->tok->next, "use of undeclared label");
 
     x->unique_label = dest->unique_label;
-    if (!dest->defr_start)
+    if (!dest->defr_start || x->kind == ND_LABEL_VAL)
       continue;
 
     DeferStmt *defr= x->defr_start;
-- 
2.43.0


From 33f0df83ae399d1453005240988b3b86e2462029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:49 +0000
Subject: [PATCH 16/34] fix: round constant integers converted to float or
 double

---
 parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 41bbac9..b7955e2 100644
--- a/parse.c
+++ b/parse.c
@@ -3180,8 +3180,8 @@ static long double eval_double(Node *node) {
     if (is_flonum(lhs->ty))
       return eval_fp_cast(eval_double(lhs), ty);
     if (lhs->ty->size == 8 && lhs->ty->is_unsigned)
-      return (uint64_t)eval(lhs);
-    return eval(lhs);
+      return eval_fp_cast((uint64_t)eval(lhs), ty);
+    return eval_fp_cast(eval(lhs), ty);
   case ND_NUM:
     return node->fval;
   }
-- 
2.43.0


From b71a7377747f4c5c0e03ea3c7a9273468f2c5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:49 +0000
Subject: [PATCH 17/34] fix: keep memory from __builtin_alloca when variable
 length arrays go out of scope

---
 parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.c b/parse.c
index b7955e2..7ecf990 100644
--- a/parse.c
+++ b/parse.c
@@ -4265,6 +4265,7 @@ static Node *primary(Token **rest, Token *tok) {
 
   if (equal(tok, "__builtin_alloca")) {
     Node *node = new_node(ND_ALLOCA, tok);
+    dont_dealloc_vla = true;
     tok = skip(tok->next, "(");
     node->lhs = assign(&tok, tok);
     *rest = skip(tok, ")");
-- 
2.43.0


From 0a0c54db312e891138a8534951889313ea747b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 18/34] fix: do not overlap the saved operands of an asm
 statement with temporaries of their expressions

---
 parse.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 7ecf990..d9afaae 100644
--- a/parse.c
+++ b/parse.c
@@ -2608,9 +2608,8 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
   }
 
   if (equal_kw(tok, "asm") || equal(tok, "__asm") || equal(tok, "__asm__")) {
-    Node *node = asm_stmt(&tok, tok);
-
     enter_tmp_scope();
+    Node *node = asm_stmt(&tok, tok);
     prepare_inline_asm(node);
     leave_scope();
 
-- 
2.43.0


From 3699962c560fe29baf412c40ae9b2052f1cf6e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 19/34] fix: read volatile objects in expressions whose value
 is discarded, and as a whole

---
 codegen.c | 44 +++++++++++++++++++++++++++++++++++++-------
 parse.c   |  4 ++--
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/codegen.c b/codegen.c
index beb67ad..ad71dc8 100644
--- a/codegen.c
+++ b/codegen.c
@@ -271,6 +271,12 @@ static bool has_memop(Node *node) {
   return is_memop(node, ofs, &ptr, true);
 }
 
+// Volatile objects are accessed as a whole.
+static bool is_partial_volatile(Node *node, int sz) {
+  node = skip_gp_cast(node);
+  return node->ty->is_volatile && sz < node->ty->size;
+}
+
 static bool is_int_to_int_cast(Node *node) {
   return node->kind == ND_CAST && is_integer(node->ty) && is_integer(node->lhs->ty);
 }
@@ -2319,6 +2325,7 @@ static void gen_void_assign(Node *node) {
   char sofs[STRBUF_SZ], *sptr;
   if (is_memop(rhs, sofs, &sptr, true) ||
     (is_int_to_int_cast(rhs) && lhs->ty->size <= rhs->lhs->ty->size &&
+    !is_partial_volatile(rhs->lhs, lhs->ty->size) &&
     lhs->ty->kind != TY_BOOL && is_memop(rhs->lhs, sofs, &sptr, true))) {
     char dofs[STRBUF_SZ], *dptr;
     if (is_memop(lhs, dofs, &dptr, false)) {
@@ -2348,18 +2355,41 @@ static void gen_void_assign(Node *node) {
   gen_expr2(node, true);
 }
 
+// Evaluate an lvalue only for the side effects of its address.
+static void gen_void_addr(Node *node) {
+  switch (node->kind) {
+  case ND_VAR:
+    return;
+  case ND_MEMBER:
+    gen_void_addr(node->lhs);
+    return;
+  case ND_DEREF:
+    gen_void_expr(node->lhs);
+    return;
+  }
+  gen_void_expr(node);
+}
+
 static void gen_void_expr(Node *node) {
   switch (node->kind) {
   case ND_NULL_EXPR:
   case ND_LABEL_VAL:
-  case ND_VAR:
   case ND_NUM:
     return;
-  case ND_POS:
-  case ND_NEG:
+  case ND_VAR:
   case ND_MEMBER:
-  case ND_ADDR:
   case ND_DEREF:
+    // Reading a volatile object is a side effect.
+    if (node->ty->is_volatile && is_scalar(node->ty))
+      gen_expr(node);
+    else
+      gen_void_addr(node);
+    return;
+  case ND_ADDR:
+    gen_void_addr(node->lhs);
+    return;
+  case ND_POS:
+  case ND_NEG:
   case ND_NOT:
   case ND_BITNOT:
   case ND_CAST:
@@ -2634,7 +2664,7 @@ static bool gen_arith_opt_gp2(NodeKind kind, int sz, Node *lhs, Node *rhs, int p
     }
     break;
   case 1:
-    if (is_memop(rhs, ofs, &ptr, true)) {
+    if (is_memop(rhs, ofs, &ptr, true) && !is_partial_volatile(rhs, sz)) {
       gen_expr(lhs);
       Printftn("%s %s(%s), %s", arith_ins(kind), ofs, ptr, ax);
       return true;
@@ -2642,7 +2672,7 @@ static bool gen_arith_opt_gp2(NodeKind kind, int sz, Node *lhs, Node *rhs, int p
     break;
   case 2:
     if (is_int_to_int_cast(rhs) && is_memop(rhs->lhs, ofs, &ptr, true) &&
-      sz <= rhs->lhs->ty->size) {
+      sz <= rhs->lhs->ty->size && !is_partial_volatile(rhs->lhs, sz)) {
       gen_expr(lhs);
       Printftn("%s %s(%s), %s", arith_ins(kind), ofs, ptr, ax);
       return true;
@@ -2763,7 +2793,7 @@ static bool gen_load_opt_gp(Node *node, Reg r) {
           load_extend_int(lhs->ty, ofs, ptr, regs[r][2]);
         return true;
       }
-    } else if (ty->kind != TY_BOOL) {
+    } else if (ty->kind != TY_BOOL && !is_partial_volatile(lhs, ty->size)) {
       if (gen)
         load_extend_int(ty, ofs, ptr, regs[r][ty->size == 8 ? 3 : 2]);
       return true;
diff --git a/parse.c b/parse.c
index d9afaae..5f572b3 100644
--- a/parse.c
+++ b/parse.c
@@ -365,13 +365,13 @@ Node *new_cast(Node *expr, Type *ty) {
       if (expr->ty == ty)
         return expr;
 
-      if (expr->ty->origin && expr->ty->origin == ty) {
+      if (expr->ty->origin && expr->ty->origin == ty && !expr->ty->is_volatile) {
         expr->ty = ty;
         return expr;
       }
     }
 
-    if (is_redundant_cast(expr, ty)) {
+    if (!expr->ty->is_volatile && is_redundant_cast(expr, ty)) {
       expr->ty = ty;
       return expr;
     }
-- 
2.43.0


From fec7c0111537c6f068b96563bfa6828459ea86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 20/34] fix: do not fold a comma expression that reads a
 volatile variable

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 5f572b3..80c2311 100644
--- a/parse.c
+++ b/parse.c
@@ -2853,7 +2853,7 @@ static int64_t eval_sign_extend(Type *ty, int64_t val) {
 }
 
 static void eval_void(Node *node) {
-  if (node->kind == ND_VAR)
+  if (node->kind == ND_VAR && !node->ty->is_volatile)
     return;
 
   if (is_flonum(node->ty)) {
-- 
2.43.0


From 92b87fed22c92254e38f39dbeb1e396690876a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 21/34] fix: convert long double to short and unsigned short
 without losing bits

---
 codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index ad71dc8..211b206 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1074,8 +1074,8 @@ static char f64f80[] = "sub $8, %rsp; movsd %xmm0, (%rsp); fldl (%rsp); add $8,
 
 static char f80i8[] = FROM_F80_1 "fistps" FROM_F80_2 "movsbl (%rsp), %eax" FROM_F80_3;
 static char f80u8[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movzwl (%rsp), %eax" FROM_F80_3;
 static char f80i32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
 static char f80u32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
 static char f80i64[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %rax" FROM_F80_3;
-- 
2.43.0


From 29b0fe525cb09e588458a6d6bd72f4e447ad0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 22/34] fix: convert long double to unsigned int over its whole
 range

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 211b206..bb108f2 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1077,7 +1077,7 @@ static char f80u8[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_
 static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
 static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movzwl (%rsp), %eax" FROM_F80_3;
 static char f80i32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
-static char f80u32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
+static char f80u32[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
 static char f80i64[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %rax" FROM_F80_3;
 static char f80u64[] =
   "sub $16, %rsp; movl $0x5f000000, 12(%rsp); flds 12(%rsp); fucomi %st(1), %st; setbe %al;"
-- 
2.43.0


From d12350939047bae9e3f16df919321b9a10840513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 23/34] fix: give every copy of a deferred statement labels of
 its own

---
 codegen.c | 47 +++++++++++++++++++++++++++++++----------------
 parse.c   |  2 ++
 slimcc.h  |  2 ++
 3 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/codegen.c b/codegen.c
index bb108f2..b624867 100644
--- a/codegen.c
+++ b/codegen.c
@@ -95,6 +95,7 @@ static int rtn_ptr_ofs;
 static int lvar_stk_sz;
 static int peak_stk_usage;
 static int64_t rtn_label;
+static int64_t defr_instance;
 static long pre_epilog_pos;
 
 static struct {
@@ -194,6 +195,14 @@ static int64_t count(void) {
   return i++;
 }
 
+// A deferred statement is emitted at every exit of its scope,
+// so the labels in further copies have to be told apart.
+static char *jump_label(char *label) {
+  if (!defr_instance)
+    return label;
+  return format("%s.%"PRIi64, label, defr_instance);
+}
+
 static bool is_gp_ty(Type *ty) {
   return is_integer(ty) || ty->kind == TY_PTR;
 }
@@ -1360,7 +1369,11 @@ static void gen_defr(Node *node) {
       continue;
     }
     if (defr->kind == DF_DEFER_STMT) {
+      int64_t prev = defr_instance;
+      defr_instance = defr->is_emitted ? count() : 0;
+      defr->is_emitted = true;
       gen_stmt(defr->stmt);
+      defr_instance = prev;
       defr = defr->next;
       continue;
     }
@@ -1791,7 +1804,7 @@ static void gen_expr2(Node *node, bool is_void) {
     }
     return;
   case ND_LABEL_VAL:
-    Printftn("lea %s(%%rip), %%rax", node->unique_label);
+    Printftn("lea %s(%%rip), %%rax", jump_label(node->unique_label));
     return;
   case ND_CAS: {
     gen_expr(node->cas_addr);
@@ -2115,14 +2128,14 @@ static void gen_stmt(Node *node) {
       gen_stmt(node->init);
     Printfsn(".L.begin.%"PRIi64":", c);
     if (node->cond)
-      gen_cond(node->cond, false, node->brk_label);
+      gen_cond(node->cond, false, jump_label(node->brk_label));
     gen_stmt(node->then);
-    Printfsn("%s:", node->cont_label);
+    Printfsn("%s:", jump_label(node->cont_label));
     if (node->inc)
       gen_void_expr(node->inc);
     gen_defr(node);
     Printftn("jmp .L.begin.%"PRIi64, c);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", jump_label(node->brk_label));
     return;
   }
   case ND_DO: {
@@ -2131,9 +2144,9 @@ static void gen_stmt(Node *node) {
 
     Printfsn("%s:", begin_label);
     gen_stmt(node->then);
-    Printfsn("%s:", node->cont_label);
+    Printfsn("%s:", jump_label(node->cont_label));
     gen_cond(node->cond, true, begin_label);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", jump_label(node->brk_label));
     return;
   }
   case ND_SWITCH: {
@@ -2152,26 +2165,26 @@ static void gen_stmt(Node *node) {
 
       if (cr->hi == cr->lo) {
         imm_cmp(ax, dx, cr->lo);
-        Printftn("je %s", cr->label);
+        Printftn("je %s", jump_label(cr->label));
         continue;
       }
       if (cr->lo == 0) {
         imm_cmp(ax, dx, cr->hi);
-        Printftn("jbe %s", cr->label);
+        Printftn("jbe %s", jump_label(cr->label));
         continue;
       }
       Printftn("mov %s, %s", ax, cx);
       imm_sub(cx, dx, cr->lo);
       imm_cmp(cx, dx, cr->hi - cr->lo);
-      Printftn("jbe %s", cr->label);
+      Printftn("jbe %s", jump_label(cr->label));
     }
 
     if (node->default_case)
-      Printftn("jmp %s", node->default_case->label);
+      Printftn("jmp %s", jump_label(node->default_case->label));
 
-    Printftn("jmp %s", node->brk_label);
+    Printftn("jmp %s", jump_label(node->brk_label));
     gen_stmt(node->then);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", jump_label(node->brk_label));
     return;
   }
   case ND_BLOCK:
@@ -2181,14 +2194,16 @@ static void gen_stmt(Node *node) {
     return;
   case ND_GOTO:
     gen_defr(node);
-    Printftn("jmp %s", node->unique_label);
+    Printftn("jmp %s", jump_label(node->unique_label));
     return;
   case ND_GOTO_EXPR:
     gen_expr(node->lhs);
     Printstn("jmp *%%rax");
     return;
   case ND_LABEL:
-    Printfsn("%s:", node->unique_label);
+    if (defr_instance && node->is_data_label)
+      error_tok(node->tok, "label in data refers to a deferred statement of several exits");
+    Printfsn("%s:", jump_label(node->unique_label));
     return;
   case ND_RETURN: {
     if (!node->lhs) {
@@ -3697,7 +3712,7 @@ static void asm_body(Node *node) {
       if (node->asm_outputs)
         Printf("%df", ap->label_id);
       else
-        Printf("%s", ap->arg->unique_label);
+        Printf("%s", jump_label(ap->arg->unique_label));
       continue;
     }
 
@@ -3847,7 +3862,7 @@ static void gen_asm(Node *node) {
     Printftn("lea %df(%%rip), %s; jmp %df", fallthrough_label, tmp_gp, meet_label);
     for (AsmParam *ap = node->asm_labels; ap; ap = ap->next) {
       Printftn("%d:", ap->label_id);
-      Printftn("lea %s(%%rip), %s", ap->arg->unique_label, tmp_gp);
+      Printftn("lea %s(%%rip), %s", jump_label(ap->arg->unique_label), tmp_gp);
       Printftn("jmp %df", meet_label);
     }
     Printftn("%d:", meet_label);
diff --git a/parse.c b/parse.c
index 80c2311..9428dc0 100644
--- a/parse.c
+++ b/parse.c
@@ -3067,6 +3067,7 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
     if (!ctx->label) {
       if (node->kind == ND_LABEL_VAL) {
         ctx->label = &node->unique_label;
+        node->is_data_label = true;
         return 0;
       }
 
@@ -4529,6 +4530,7 @@ static void resolve_goto_labels(void) {
       error_tok(x->tok->next, "use of undeclared label");
 
     x->unique_label = dest->unique_label;
+    dest->is_data_label |= x->is_data_label;
     if (!dest->defr_start || x->kind == ND_LABEL_VAL)
       continue;
 
diff --git a/slimcc.h b/slimcc.h
index f23f6e5..4c54c13 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -321,6 +321,7 @@ struct DeferStmt {
   Obj *vla;
   Node *cleanup_fn;
   Node *stmt;
+  bool is_emitted;
 };
 
 typedef enum {
@@ -462,6 +463,7 @@ struct Node {
   Token *labels;
   char *unique_label;
   Node *goto_next;
+  bool is_data_label;
 
   // Switch
   CaseRange *cases;
-- 
2.43.0


From bad94fd353c438b460d23f6dc99315f364198d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 24/34] fix: access only the bytes a bit-field occupies

---
 codegen.c | 161 +++++++++++++++++++++++++++++++++++++++++-------------
 parse.c   |  39 +++++++++----
 slimcc.h  |   1 +
 3 files changed, 151 insertions(+), 50 deletions(-)

diff --git a/codegen.c b/codegen.c
index b624867..6f775fe 100644
--- a/codegen.c
+++ b/codegen.c
@@ -549,6 +549,16 @@ static char *reg_dx(int sz) {
   internal_error();
 }
 
+static char *reg_cx(int sz) {
+  switch (sz) {
+  case 1: return "%cl";
+  case 2: return "%cx";
+  case 4: return "%ecx";
+  case 8: return "%rcx";
+  }
+  internal_error();
+}
+
 static char *reg_ax(int sz) {
   switch (sz) {
   case 1: return "%al";
@@ -658,6 +668,53 @@ static void gen_cmp_setcc(NodeKind kind, bool is_unsigned) {
   Printstn("movzbl %%al, %%eax");
 }
 
+// The bytes a bit-field occupies. Other bytes of its unit may belong to
+// another member, and those of a packed unit may be outside of the struct.
+static int bitfield_bytes(Member *mem, int *ofs) {
+  *ofs = mem->bit_offset / 8;
+  return (mem->bit_offset % 8 + mem->bit_width + 7) / 8;
+}
+
+static void extend_bitfield(Member *mem, int lsb) {
+  if (64 - mem->bit_width - lsb)
+    Printftn("shl $%d, %%rax", 64 - mem->bit_width - lsb);
+  if (64 - mem->bit_width)
+    Printftn("%s $%d, %%rax", (mem->ty->is_unsigned ? "shr" : "sar"), 64 - mem->bit_width);
+}
+
+static void gen_packed_bitfield_load(Member *mem, int ofs) {
+  int start;
+  int sz = bitfield_bytes(mem, &start);
+  int lsb = mem->bit_offset % 8;
+  ofs += start;
+
+  if (sz == 9) {
+    Printftn("movzbl %d(%%rax), %%edx", ofs + 8);
+    Printftn("mov %d(%%rax), %%rax", ofs);
+    Printftn("shrd $%d, %%rdx, %%rax", lsb);
+    extend_bitfield(mem, 0);
+    return;
+  }
+
+  switch (sz) {
+  case 8: Printftn("mov %d(%%rax), %%rax", ofs); break;
+  case 4: Printftn("mov %d(%%rax), %%eax", ofs); break;
+  case 2: Printftn("movzwl %d(%%rax), %%eax", ofs); break;
+  case 1: Printftn("movzbl %d(%%rax), %%eax", ofs); break;
+  default: {
+    int i = sz - (sz % 2 ? 1 : 2);
+    Printftn("movz%sl %d(%%rax), %%edx", sz % 2 ? "b" : "w", ofs + i);
+    while (i) {
+      i -= 2;
+      Printstn("shl $16, %%rdx");
+      Printftn("movw %d(%%rax), %%dx", ofs + i);
+    }
+    Printstn("mov %%rdx, %%rax");
+  }
+  }
+  extend_bitfield(mem, lsb);
+}
+
 static void gen_bitfield_load(Node *node, int ofs) {
   Member *mem = node->member;
   Type *alt_ty = bitwidth_to_ty(mem->bit_width, mem->ty->is_unsigned);
@@ -665,6 +722,10 @@ static void gen_bitfield_load(Node *node, int ofs) {
     load2(alt_ty, ofs + mem->bit_offset / 8, "%rax");
     return;
   }
+  if (mem->is_packed) {
+    gen_packed_bitfield_load(mem, ofs);
+    return;
+  }
   load2(mem->ty, ofs, "%rax");
 
   char *ax = regop_ax(mem->ty);
@@ -687,35 +748,39 @@ static void gen_bitfield_store(Node *node, bool is_void) {
     return;
   }
 
-  char *ax, *dx, *cx;
-  if (mem->ty->size == 8)
-    ax = "%rax", cx = "%rcx", dx = "%rdx";
-  else
-    ax = "%eax", cx = "%ecx", dx = "%edx";
+  char *ptr = pop_inreg(tmpreg64[0]);
 
-  Printftn("mov %s, %s", ax, cx);
-  imm_and(cx, dx, (1LL << mem->bit_width) - 1);
+  int start;
+  int sz = bitfield_bytes(mem, &start);
+  int lsb = mem->bit_offset % 8;
+  int end = lsb + mem->bit_width;
 
-  char *ptr = pop_inreg(tmpreg64[0]);
-  load2(mem->ty, 0, ptr);
+  for (int i = 0, p2; i < sz; i += p2) {
+    bool is_full = (i * 8 >= lsb && i * 8 + 64 <= end);
+    p2 = is_full ? 8 : (sz - i >= 4) ? 4 : (sz - i >= 2) ? 2 : 1;
 
-  uint64_t msk = ~(((1ULL << mem->bit_width) - 1) << mem->bit_offset);
-  if (mem->ty->size == 4 && (mem->bit_width + mem->bit_offset == 32))
-    msk = (uint32_t)msk;
-  imm_and(ax, dx, msk);
+    int from = MAX(lsb, i * 8);
+    int to = MIN(end, (i + p2) * 8);
 
-  if (mem->bit_offset)
-    Printftn("shl $%d, %s", mem->bit_offset, cx);
-  Printftn("or %s, %s", cx, ax);
+    Printstn("mov %%rax, %%rcx");
+    if (from - lsb)
+      Printftn("shr $%d, %%rcx", from - lsb);
 
-  store2(mem->ty, 0, ptr);
+    if (to - from != p2 * 8) {
+      uint32_t msk = (1U << (to - from)) - 1;
+      Printftn("and $%"PRIi32", %%ecx", (int32_t)msk);
+      if (from - i * 8)
+        Printftn("shl $%d, %%ecx", from - i * 8);
 
-  if (!is_void) {
-    int shft = ((mem->ty->size == 8) ? 64 : 32) - mem->bit_width;
-    if (shft - mem->bit_offset)
-      Printftn("shl $%d, %s", shft - mem->bit_offset, ax);
-    Printftn("%s $%d, %s", (mem->ty->is_unsigned ? "shr" : "sar"), shft, ax);
+      Printftn("mov%s %d(%s), %%edx", p2 == 4 ? "l" : p2 == 2 ? "zwl" : "zbl", start + i, ptr);
+      Printftn("and $%"PRIi32", %%edx", (int32_t)~(msk << (from - i * 8)));
+      Printstn("or %%edx, %%ecx");
+    }
+    Printftn("mov %s, %d(%s)", reg_cx(p2), start + i, ptr);
   }
+
+  if (!is_void)
+    extend_bitfield(mem, 0);
 }
 
 // Compute the absolute address of a given node.
@@ -3538,33 +3603,53 @@ static void asm_reg_output(AsmParam *ap, Reg tmpreg) {
   error_tok(ap->arg->tok, "unsupported operand size");
 }
 
+static void asm_bitfield_byte_out(char *val, char *ptr, int ofs, int msk) {
+  if (msk != 0xFF) {
+    Printftn("andb $%d, %d(%s)", (int8_t)~msk, ofs, ptr);
+    Printftn("orb %s, %d(%s)", val, ofs, ptr);
+    return;
+  }
+  Printftn("movb %s, %d(%s)", val, ofs, ptr);
+}
+
 static bool asm_bitfield_out(AsmParam *ap, Reg tmpreg) {
   if (!is_bitfield(ap->arg))
     return false;
 
   Member *mem = ap->arg->member;
   char *val = regs[ap->reg][3];
+  char *val8 = regs[ap->reg][0];
   char *tmp = regs[tmpreg][3];
 
-  Printftn("shl $%d, %s", (64 - mem->bit_width), val);
-  Printftn("shr $%d, %s", (64 - mem->bit_width - mem->bit_offset), val);
+  int start;
+  int sz = bitfield_bytes(mem, &start);
+  int lsb = mem->bit_offset % 8;
+  int end = lsb + mem->bit_width;
 
-  if (mem->bit_width + mem->bit_offset != 64) {
-    Printftn("movq %d(%s), %s", ap->ptr->ofs, alt_ptr(ap->ptr->ptr), tmp);
-    Printftn("mov (%s), %s", tmp, reg_sz(tmpreg, mem->ty->size));
-    Printftn("shr $%d, %s", (mem->bit_width + mem->bit_offset), tmp);
-    Printftn("shl $%d, %s", (mem->bit_width + mem->bit_offset), tmp);
-    Printftn("or %s, %s", tmp, val);
+  Printftn("movq %d(%s), %s", ap->ptr->ofs, alt_ptr(ap->ptr->ptr), tmp);
+  if (mem->bit_width != 64) {
+    Printftn("shl $%d, %s", 64 - mem->bit_width, val);
+    Printftn("shr $%d, %s", 64 - mem->bit_width, val);
   }
-  if (mem->bit_offset) {
-    Printftn("movq %d(%s), %s", ap->ptr->ofs, alt_ptr(ap->ptr->ptr), tmp);
-    Printftn("mov (%s), %s", tmp, reg_sz(tmpreg, mem->ty->size));
-    Printftn("shl $%d, %s", (64 - mem->bit_offset), tmp);
-    Printftn("shr $%d, %s", (64 - mem->bit_offset), tmp);
-    Printftn("or %s, %s", tmp, val);
+
+  if (sz == 9) {
+    Printftn("push %s", val);
+    Printftn("shr $%d, %s", 64 - lsb, val);
+    asm_bitfield_byte_out(val8, tmp, start + 8, (1 << (end - 64)) - 1);
+    Printftn("pop %s", val);
+    sz = 8;
+  }
+
+  if (lsb)
+    Printftn("shl $%d, %s", lsb, val);
+
+  for (int i = 0; i < sz; i++) {
+    if (i)
+      Printftn("shr $8, %s", val);
+    int from = MAX(lsb - i * 8, 0);
+    int to = MIN(end - i * 8, 8);
+    asm_bitfield_byte_out(val8, tmp, start + i, (1 << to) - (1 << from));
   }
-  Printftn("movq %d(%s), %s", ap->ptr->ofs, alt_ptr(ap->ptr->ptr), tmp);
-  Printftn("mov %s, (%s)", reg_sz(ap->reg, mem->ty->size), tmp);
   return true;
 }
 
diff --git a/parse.c b/parse.c
index 9428dc0..ecbdd1b 100644
--- a/parse.c
+++ b/parse.c
@@ -2040,6 +2040,23 @@ static uint64_t read_buf(char *buf, int sz) {
   internal_error();
 }
 
+// A bit-field may start and end within any byte of the buffer
+static uint64_t read_bitfield_buf(char *buf, Member *mem) {
+  uint64_t val = 0;
+  for (int i = 0; i < mem->bit_width; i++) {
+    int pos = mem->bit_offset + i;
+    val |= (uint64_t)((buf[pos / 8] >> (pos % 8)) & 1) << i;
+  }
+  return val;
+}
+
+static void write_bitfield_buf(char *buf, Member *mem, uint64_t val) {
+  for (int i = 0; i < mem->bit_width; i++) {
+    int pos = mem->bit_offset + i;
+    buf[pos / 8] = (buf[pos / 8] & ~(1 << (pos % 8))) | (((val >> i) & 1) << (pos % 8));
+  }
+}
+
 static long double read_double_buf(char *buf, Type *ty){
   if (ty->kind == TY_FLOAT)
     return *(float *)buf;
@@ -2075,11 +2092,7 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
           Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = ty};
 
           char *loc = buf + offset + mem->offset;
-          uint64_t oldval = read_buf(loc, mem->ty->size);
-          uint64_t newval = eval(&init_expr);
-          uint64_t mask = (1L << mem->bit_width) - 1;
-          uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
-          memcpy(loc, &combined, mem->ty->size);
+          write_bitfield_buf(loc, mem, eval(&init_expr));
           continue;
         }
         cur = write_gvar_data(cur, init2, mem->ty, buf, offset + mem->offset, kind);
@@ -3090,16 +3103,15 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
   if (ctx->kind == EV_CONST && is_integer(ty)) {
     char *data = eval_constexpr_data(node);
     if (data) {
-      int64_t val = eval_sign_extend(ty, read_buf(data, ty->size));
       if (is_bitfield(node)) {
         int unused_msb = 64 - node->member->bit_width;
-        val <<= (unused_msb - node->member->bit_offset);
+        uint64_t val = read_bitfield_buf(data, node->member) << unused_msb;
 
         if (ty->is_unsigned)
-          return (uint64_t)val >> unused_msb;
-        return val >> unused_msb;
+          return val >> unused_msb;
+        return (int64_t)val >> unused_msb;
       }
-      return val;
+      return eval_sign_extend(ty, read_buf(data, ty->size));
     }
   }
   return eval_error(node->tok, "not a compile-time constant");
@@ -3856,6 +3868,7 @@ static Type *struct_decl(Type *ty, int alt_align) {
         if (bits / (sz * 8) != (bits + mem->bit_width - 1) / (sz * 8))
           bits = align_to(bits, sz * 8);
 
+      mem->is_packed = ty->is_packed;
       mem->offset = align_down(bits / 8, sz);
       mem->bit_offset = bits % (sz * 8);
       bits += mem->bit_width;
@@ -3893,10 +3906,12 @@ static Type *union_decl(Type *ty, int alt_align) {
       alt_align = MAX(alt_align, mem->alt_align);
     }
     int sz;
-    if (mem->is_bitfield)
+    if (mem->is_bitfield) {
+      mem->is_packed = ty->is_packed;
       sz = align_to(mem->bit_width, 8) / 8;
-    else
+    } else {
       sz = mem->ty->size;
+    }
     ty->size = MAX(ty->size, sz);
   }
   cur->next = NULL;
diff --git a/slimcc.h b/slimcc.h
index 4c54c13..0b65ba8 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -601,6 +601,7 @@ struct Member {
 
   // Bitfield
   bool is_bitfield;
+  bool is_packed;
   int bit_offset;
   int bit_width;
 };
-- 
2.43.0


From 9cb45417ea04208e6f18f09787f7f2fc75f610e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 25/34] fix: convert a static initialiser to the type of its
 bit-field

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index ecbdd1b..698eeb0 100644
--- a/parse.c
+++ b/parse.c
@@ -2089,7 +2089,7 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
         if (mem->is_bitfield &&
           ((init2->kind == INIT_EXPR || init2->kind == INIT_TOK))) {
           Node *node = init_num_tok(init2, &(Node){.kind = ND_NUM, .tok = init2->tok});
-          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = ty};
+          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = mem->ty};
 
           char *loc = buf + offset + mem->offset;
           write_bitfield_buf(loc, mem, eval(&init_expr));
-- 
2.43.0


From 5d55a28d23848c558ed68430b1114e74d6628818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 26/34] fix: sign-extend a bit-field of type long that fills a
 smaller type

---
 codegen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 6f775fe..303d38e 100644
--- a/codegen.c
+++ b/codegen.c
@@ -720,6 +720,8 @@ static void gen_bitfield_load(Node *node, int ofs) {
   Type *alt_ty = bitwidth_to_ty(mem->bit_width, mem->ty->is_unsigned);
   if (alt_ty && (mem->bit_offset == (mem->bit_offset / 8 * 8))) {
     load2(alt_ty, ofs + mem->bit_offset / 8, "%rax");
+    if (alt_ty->size < mem->ty->size)
+      extend_bitfield(mem, 0);
     return;
   }
   if (mem->is_packed) {
@@ -743,8 +745,8 @@ static void gen_bitfield_store(Node *node, bool is_void) {
     char *reg = pop_inreg(tmpreg64[0]);
     store2(alt_ty, mem->bit_offset / 8, reg);
 
-    if (!is_void && alt_ty->size < 4)
-      cast_extend_int32(alt_ty, reg_ax(alt_ty->size), "%eax");
+    if (!is_void)
+      extend_bitfield(mem, 0);
     return;
   }
 
-- 
2.43.0


From 6cbb3f6c4d858651c7389978fe2ced3beb09a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 27/34] fix: honour the section attribute on block-scope static
 objects

---
 parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.c b/parse.c
index 698eeb0..c9de5d9 100644
--- a/parse.c
+++ b/parse.c
@@ -1496,6 +1496,8 @@ static Node *declaration2(Token **rest, Token *tok, Type *basety, VarAttr *attr,
     var->is_tls = attr->is_tls;
     if (alt_align)
       var->align = alt_align;
+    apply_str_attr("section", name, &var->section_name, attr->section);
+    DeclAttr(str_attr, "section", &var->section_name);
     push_scope(get_ident(name))->var = var;
 
     if (attr->is_constexpr) {
-- 
2.43.0


From c7579071021c1bce145184b9e29a7532026b0711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 28/34] fix: accept a trailing comma in a braced scalar
 initialiser

---
 parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.c b/parse.c
index c9de5d9..bf0f41f 100644
--- a/parse.c
+++ b/parse.c
@@ -1893,6 +1893,7 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
     // An initializer for a scalar variable can be surrounded by
     // braces. E.g. `int x = {3};`. Handle that case.
     initializer2(&tok, tok->next, init);
+    consume(&tok, tok, ",");
     *rest = skip(tok, "}");
     return;
   }
-- 
2.43.0


From d08be1c078606555a822d2c137532394fb89eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 29/34] fix: negated floating-point comparisons of unordered
 operands

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 303d38e..2d29469 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2969,7 +2969,8 @@ static bool gen_bool_opt(Node *node) {
     return false;
   node = boolexpr;
 
-  if (is_cmp(node)) {
+  // The negation of a floating comparison holds for unordered operands.
+  if (is_cmp(node) && !(flip && is_flonum(node->lhs->ty))) {
     Node n = *node;
     flip_cmp(&n.kind, flip);
     gen_expr(&n);
-- 
2.43.0


From 7cee55d39002a6c652e40e9362f57c8e1d338d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 30/34] fix: drop discarded long double values from the x87
 register stack

---
 codegen.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/codegen.c b/codegen.c
index 2d29469..2add41d 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1186,10 +1186,11 @@ static void gen_cast(Node *node) {
     gen_cmp_zero(node->lhs, ND_NE);
     return;
   }
-  gen_expr(node->lhs);
-
-  if (node->ty->kind == TY_VOID)
+  if (node->ty->kind == TY_VOID) {
+    gen_void_expr(node->lhs);
     return;
+  }
+  gen_expr(node->lhs);
 
   int t1 = getTypeId(node->lhs->ty);
   int t2 = getTypeId(node->ty);
@@ -2365,6 +2366,14 @@ static void memop_arith(Node *lhs, Node *rhs, char *ins) {
   Printftn("%s %s, (%s)", ins_sz, reg_ax(lhs->ty->size), dptr);
 }
 
+// Evaluate an expression and drop its value: a long double would
+// otherwise stay behind on the x87 register stack.
+static void gen_dropped_expr(Node *node) {
+  gen_expr2(node, true);
+  if (node->ty->kind == TY_LDOUBLE)
+    Printstn("fstp %%st(0)");
+}
+
 static void gen_void_arith_assign(Node *node) {
   if (node->kind == ND_POST_INCDEC) {
     node->kind = ND_ARITH_ASSIGN;
@@ -2391,7 +2400,7 @@ static void gen_void_arith_assign(Node *node) {
       return;
     }
   }
-  gen_expr2(node, true);
+  gen_dropped_expr(node);
 }
 
 static void gen_void_assign(Node *node) {
@@ -2434,7 +2443,7 @@ static void gen_void_assign(Node *node) {
     }
   }
 
-  gen_expr2(node, true);
+  gen_dropped_expr(node);
 }
 
 // Evaluate an lvalue only for the side effects of its address.
@@ -2463,7 +2472,7 @@ static void gen_void_expr(Node *node) {
   case ND_DEREF:
     // Reading a volatile object is a side effect.
     if (node->ty->is_volatile && is_scalar(node->ty))
-      gen_expr(node);
+      gen_dropped_expr(node);
     else
       gen_void_addr(node);
     return;
@@ -2507,7 +2516,7 @@ static void gen_void_expr(Node *node) {
     gen_void_arith_assign(node);
     return;
   }
-  gen_expr2(node, true);
+  gen_dropped_expr(node);
 }
 
 static char *arith_ins(NodeKind kind) {
-- 
2.43.0


From 8fa5732af5e2f44278dccc53430a590a2cbd012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 31/34] fix: keep the x87 control word and exception flags when
 loading long doubles

---
 codegen.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/codegen.c b/codegen.c
index 2add41d..aeaad59 100644
--- a/codegen.c
+++ b/codegen.c
@@ -875,7 +875,7 @@ static void load3(Type *ty, char *sofs, char *sptr) {
     Printftn("movsd %s(%s), %%xmm0", sofs, sptr);
     return;
   case TY_LDOUBLE:
-    Printftn("fninit; fldt %s(%s)", sofs, sptr);
+    Printftn("fldt %s(%s)", sofs, sptr);
     return;
   }
   load_extend_int(ty, sofs, sptr, regop_ax(ty));
@@ -928,7 +928,7 @@ static void store3(Type *ty, char *dofs, char *dptr) {
     return;
   case TY_LDOUBLE:
     Printftn("fstpt %s(%s)", dofs, dptr);
-    Printftn("fninit; fldt %s(%s)", dofs, dptr);
+    Printftn("fldt %s(%s)", dofs, dptr);
     return;
   }
 
@@ -1007,21 +1007,21 @@ static void load_fval(Type *ty, long double fval) {
 
   long double pos_z = +0.0L;
   if (!memcmp(&pos_z, &fval, 10)) {
-    Printstn("fninit; fldz");
+    Printstn("fldz");
     return;
   }
   long double neg_z = -0.0L;
   if (!memcmp(&neg_z, &fval, 10)) {
-    Printstn("fninit; fldz");
+    Printstn("fldz");
     Printstn("fchs");
     return;
   }
   if (fval == 1) {
-    Printstn("fninit; fld1");
+    Printstn("fld1");
     return;
   }
   if (fval == -1) {
-    Printstn("fninit; fld1");
+    Printstn("fld1");
     Printstn("fchs");
     return;
   }
@@ -1032,7 +1032,7 @@ static void load_fval(Type *ty, long double fval) {
   Printftn("movw $%"PRIu16", %%dx", (uint16_t)u.u64[1]);
   Printstn("push %%rdx");
   Printstn("push %%rax");
-  Printstn("fninit; fldt (%%rsp)");
+  Printstn("fldt (%%rsp)");
   Printstn("add $16, %%rsp");
   return;
 }
-- 
2.43.0


From f3c7c9173cd3115118ce23d68f24b9ebf3c93526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 32/34] fix: classify aggregates of 16 bytes or less as the
 System V ABI does

---
 codegen.c | 155 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 111 insertions(+), 44 deletions(-)

diff --git a/codegen.c b/codegen.c
index aeaad59..4cf4979 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1207,49 +1207,106 @@ static void gen_cast(Node *node) {
 //
 // If a struct/union is larger than 8 bytes, the same rule is
 // applied to the the next 8 byte chunk.
-//
-// This function returns true if `ty` has only floating-point
-// members in its byte range [lo, hi).
-static bool has_flonum(Type *ty, int lo, int hi, int offset) {
+typedef enum { CLS_NONE, CLS_INT, CLS_SSE, CLS_X87, CLS_X87UP, CLS_MEM } ArgClass;
+
+static void merge_class(ArgClass *cls, ArgClass c) {
+  if (*cls == c || c == CLS_NONE)
+    return;
+  if (*cls == CLS_NONE || c == CLS_MEM)
+    *cls = c;
+  else if (*cls == CLS_MEM || *cls == CLS_INT)
+    return;
+  else if (c == CLS_INT)
+    *cls = CLS_INT;
+  else
+    *cls = CLS_MEM;
+}
+
+// Classify both 8 bytes of a type of 16 bytes or less, located at
+// `offset` in the outermost type.
+static void classify(Type *ty, int offset, ArgClass cls[2]) {
+  cls[0] = cls[1] = CLS_NONE;
+  ArgClass sub[2];
+
   if (ty->kind == TY_STRUCT || ty->kind == TY_UNION) {
     for (Member *mem = ty->members; mem; mem = mem->next) {
       int ofs = offset + mem->offset;
-      if ((ofs + mem->ty->size) <= lo)
-        continue;
-      if (hi <= ofs)
-        break;
-      if (!has_flonum(mem->ty, lo, hi, ofs))
-        return false;
-    }
-    return true;
-  }
-
-  if (ty->kind == TY_ARRAY) {
-    for (int i = 0; i < ty->array_len; i++) {
-      int ofs = offset + ty->base->size * i;
-      if ((ofs + ty->base->size) <= lo)
+      if (mem->is_bitfield) {
+        int bit = ofs * 8 + mem->bit_offset;
+        merge_class(&cls[bit / 64], CLS_INT);
+        merge_class(&cls[(bit + mem->bit_width - 1) / 64], CLS_INT);
         continue;
-      if (hi <= ofs)
-        break;
-      if (!has_flonum(ty->base, lo, hi, ofs))
-        return false;
-    }
-    return true;
+      }
+      classify(mem->ty, ofs, sub);
+      merge_class(&cls[0], sub[0]);
+      merge_class(&cls[1], sub[1]);
+    }
+  } else if (ty->kind == TY_ARRAY) {
+    for (int i = 0; ty->base->size && i < ty->array_len; i++) {
+      classify(ty->base, offset + ty->base->size * i, sub);
+      merge_class(&cls[0], sub[0]);
+      merge_class(&cls[1], sub[1]);
+    }
+  } else if (offset % ty->size) {
+    cls[0] = CLS_MEM;
+  } else if (ty->kind == TY_LDOUBLE) {
+    cls[0] = CLS_X87;
+    cls[1] = CLS_X87UP;
+  } else {
+    cls[offset / 8] = is_flonum(ty) ? CLS_SSE : CLS_INT;
   }
 
-  return ty->kind == TY_FLOAT || ty->kind == TY_DOUBLE;
+  if (cls[0] == CLS_MEM || cls[1] == CLS_MEM ||
+    (cls[1] == CLS_X87UP && cls[0] != CLS_X87))
+    cls[0] = cls[1] = CLS_MEM;
 }
 
 static bool has_flonum1(Type *ty) {
-  return has_flonum(ty, 0, 8, 0);
+  ArgClass cls[2];
+  classify(ty, 0, cls);
+  return cls[0] == CLS_SSE;
 }
 
 static bool has_flonum2(Type *ty) {
-  return has_flonum(ty, 8, 16, 0);
+  ArgClass cls[2] = {0};
+  if (ty->size > 8)
+    classify(ty, 0, cls);
+  return cls[1] == CLS_SSE;
+}
+
+// Returns true if `ty` has a member in its second 8 bytes, as opposed
+// to padding only, which is not passed.
+static bool has_second(Type *ty) {
+  ArgClass cls[2] = {0};
+  if (ty->size > 8)
+    classify(ty, 0, cls);
+  return cls[1] != CLS_NONE;
+}
+
+// Returns true if `ty` is returned in a x87 register.
+static bool is_x87_struct(Type *ty) {
+  ArgClass cls[2] = {0};
+  if ((ty->kind == TY_STRUCT || ty->kind == TY_UNION) && ty->size == 16)
+    classify(ty, 0, cls);
+  return cls[0] == CLS_X87;
+}
+
+// Returns true if `ty` cannot be passed in general-purpose or XMM registers.
+static bool is_mem_struct(Type *ty) {
+  if (ty->size > 16)
+    return true;
+  ArgClass cls[2];
+  classify(ty, 0, cls);
+  return cls[0] == CLS_MEM || cls[0] == CLS_X87;
+}
+
+static bool is_rtn_by_stk(Type *ty) {
+  return (ty->kind == TY_STRUCT || ty->kind == TY_UNION) &&
+    is_mem_struct(ty) && !is_x87_struct(ty);
 }
 
 bool va_arg_need_copy(Type *ty) {
-  if (ty->size > 8 && ty->size <= 16) {
+  if (ty->size > 8 && ty->size <= 16 && has_second(ty)) {
     return has_flonum1(ty) || has_flonum2(ty);
   }
   return false;
@@ -1266,9 +1323,9 @@ static int calling_convention(Obj *var, int *gp_count, int *fp_count, int *stack
     switch (ty->kind) {
     case TY_STRUCT:
     case TY_UNION:
-      if (ty->size <= 16) {
-        int fp_inc = has_flonum1(ty) + (ty->size > 8 && has_flonum2(ty));
-        int gp_inc = !has_flonum1(ty) + (ty->size > 8 && !has_flonum2(ty));
+      if (!is_mem_struct(ty)) {
+        int fp_inc = has_flonum1(ty) + (has_second(ty) && has_flonum2(ty));
+        int gp_inc = !has_flonum1(ty) + (has_second(ty) && !has_flonum2(ty));
 
         if ((!fp_inc || (fp + fp_inc <= FP_MAX)) &&
           (!gp_inc || (gp + gp_inc <= GP_MAX))) {
@@ -1310,7 +1367,12 @@ static void copy_ret_buffer(Obj *var) {
   Type *ty = var->ty;
   int gp = 0, fp = 0;
 
-  for (int ofs = 0; ofs < ty->size; ofs += 8) {
+  if (is_x87_struct(ty)) {
+    Printftn("fstpt %d(%s)", var->ofs, var->ptr);
+    return;
+  }
+
+  for (int ofs = 0; ofs < (has_second(ty) ? ty->size : 1); ofs += 8) {
     int chunk_sz = MIN(8, ty->size - ofs);
 
     if ((ofs == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
@@ -1336,7 +1398,12 @@ static void copy_struct_reg(void) {
   int gp = 0, fp = 0;
   char *sptr = "%rax";
 
-  for (int ofs = 0; ofs < ty->size; ofs += 8) {
+  if (is_x87_struct(ty)) {
+    Printstn("fldt (%%rax)");
+    return;
+  }
+
+  for (int ofs = 0; ofs < (has_second(ty) ? ty->size : 1); ofs += 8) {
     int chunk_sz = MIN(8, ty->size - ofs);
 
     if ((ofs == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
@@ -1470,7 +1537,7 @@ static void place_reg_arg(Type *ty, char *ofs, char *ptr, int *gp, int *fp) {
     else
       Printftn("mov %s(%s), %s",  ofs, ptr, argreg64[(*gp)++]);
 
-    if (ty->size > 8) {
+    if (has_second(ty)) {
       if (has_flonum2(ty))
         Printftn("movsd 8+%s(%s), %%xmm%d", ofs, ptr, (*fp)++);
       else
@@ -1498,7 +1565,7 @@ static void gen_funcall_args(Node *node) {
     if (var->ptr)
       gen_var_assign(var, var->arg_expr);
 
-  bool rtn_by_stk = node->ret_buffer && node->ty->size > 16;
+  bool rtn_by_stk = node->ret_buffer && is_rtn_by_stk(node->ty);
   int gp = rtn_by_stk, fp = 0;
 
   int reg_arg_cnt = 0;
@@ -1559,7 +1626,7 @@ static void gen_funcall(Node *node) {
 
   // If the return type is a large struct/union, the caller passes
   // a pointer to a buffer as if it were the first argument.
-  bool rtn_by_stk = node->ret_buffer && node->ty->size > 16;
+  bool rtn_by_stk = node->ret_buffer && is_rtn_by_stk(node->ty);
   int gp_count = rtn_by_stk;
   int fp_count = 0;
   int arg_stk_align;
@@ -1860,12 +1927,12 @@ static void gen_expr2(Node *node, bool is_void) {
   case ND_FUNCALL:
     gen_funcall(node);
 
-    if (!is_void) {
+    if (!is_void || is_x87_struct(node->ty)) {
       if (is_integer(node->ty) && node->ty->size < 4) {
         cast_extend_int32(node->ty, reg_ax(node->ty->size), "%eax");
         return;
       }
-      if (node->ret_buffer && node->ty->size <= 16) {
+      if (node->ret_buffer && !is_rtn_by_stk(node->ty)) {
         copy_ret_buffer(node->ret_buffer);
         Printftn("lea %d(%s), %%rax", node->ret_buffer->ofs, node->ret_buffer->ptr);
       }
@@ -1953,7 +2020,7 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_expr(node->lhs);
 
     Type *ty = node->ty->base;
-    bool use_reg_save = ty->size <= 16 && ty->kind != TY_LDOUBLE;
+    bool use_reg_save = !is_mem_struct(ty);
     if (use_reg_save) {
       if (va_arg_need_copy(ty)) {
         // Structs with FP member are split into 8-byte chunks in the
@@ -1966,7 +2033,7 @@ static void gen_expr2(Node *node, bool is_void) {
         Printstn("addq 16(%%rax), %%rdx"); // reg_save_area
         Printstn("addq $16, 4(%%rax)");
       } else {
-        int gp_inc = ty->size > 8 ? 2 : 1;
+        int gp_inc = has_second(ty) ? 2 : 1;
         Printftn("cmpl $%d, (%%rax)", 48 - gp_inc * 8);
         Printstn("ja 1f");
         Printstn("movl (%%rax), %%edx");   // gp_offset
@@ -2284,7 +2351,7 @@ static void gen_stmt(Node *node) {
     Type *ty = node->lhs->ty;
 
     if (ty->kind == TY_STRUCT || ty->kind == TY_UNION) {
-      if (ty->size <= 16) {
+      if (!is_rtn_by_stk(ty)) {
         if (has_defr(node)) {
           push_copy(ty->size);
           gen_defr(node);
@@ -4206,7 +4273,7 @@ void emit_text(Obj *fn) {
   Printftn(".type \"%s\", @function", asm_name(fn));
   Printfsn("\"%s\":", asm_name(fn));
 
-  bool rtn_by_stk = fn->ty->return_ty->size > 16;
+  bool rtn_by_stk = is_rtn_by_stk(fn->ty->return_ty);
   int gp_count = rtn_by_stk;
   int fp_count = 0;
   int arg_stk_size = calling_convention(fn->ty->param_list, &gp_count, &fp_count, NULL);
@@ -4291,7 +4358,7 @@ void emit_text(Obj *fn) {
       else
         store_gp(gp++, MIN(8, ty->size), var->ofs, var->ptr);
 
-      if (ty->size > 8) {
+      if (has_second(ty)) {
         if (has_flonum2(ty))
           store_fp(fp++, ty->size - 8, var->ofs + 8, var->ptr);
         else
@@ -4335,7 +4402,7 @@ void emit_text(Obj *fn) {
 
 // Logic should be in sync with gen_funcall_args()
 void prepare_funcall(Node *node, Scope *scope) {
-  bool rtn_by_stk = node->ty->size > 16;
+  bool rtn_by_stk = is_rtn_by_stk(node->ty);
   calling_convention(node->args, &(int){rtn_by_stk}, &(int){0}, NULL);
 
   int reg_arg_cnt = 0;
-- 
2.43.0


From 5088b3a3bfad8b565c9d8f045e4f47ca976ea3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 33/34] fix: do not read past the end of small structs passed
 or returned in registers

---
 codegen.c | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/codegen.c b/codegen.c
index 4cf4979..32170c4 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1393,6 +1393,20 @@ static void copy_ret_buffer(Obj *var) {
   }
 }
 
+// Load a part of a struct to a register without reading past its end.
+static void load_chunk(char *ofs, char *ptr, int add, int sz, char *r8, char *r32, char *r64) {
+  switch (sz) {
+  case 2: Printftn("movzwl %d+%s(%s), %s", add, ofs, ptr, r32); return;
+  case 4: Printftn("mov %d+%s(%s), %s", add, ofs, ptr, r32); return;
+  case 8: Printftn("mov %d+%s(%s), %s", add, ofs, ptr, r64); return;
+  }
+  Printftn("movzbl %d+%s(%s), %s", add + sz - 1, ofs, ptr, r32);
+  for (int i = sz - 2; i >= 0; i--) {
+    Printftn("shl $8, %s", r64);
+    Printftn("movb %d+%s(%s), %s", add + i, ofs, ptr, r8);
+  }
+}
+
 static void copy_struct_reg(void) {
   Type *ty = current_fn->ty->return_ty;
   int gp = 0, fp = 0;
@@ -1418,11 +1432,10 @@ static void copy_struct_reg(void) {
       Printstn("mov %%rax, %%rcx");
       sptr = "%rcx";
     }
-    int regsz = (chunk_sz > 4) ? 8 : (chunk_sz > 2) ? 4 : (chunk_sz > 1) ? 2 : 1;
     if (gp == 0)
-      Printftn("mov %d(%%rcx), %s", ofs, reg_ax(regsz));
+      load_chunk("0", "%rcx", ofs, chunk_sz, reg_ax(1), reg_ax(4), reg_ax(8));
     else
-      Printftn("mov %d(%%rcx), %s", ofs, reg_dx(regsz));
+      load_chunk("0", "%rcx", ofs, chunk_sz, reg_dx(1), reg_dx(4), reg_dx(8));
     gp++;
   }
 }
@@ -1528,21 +1541,22 @@ static void print_loc(Token *tok) {
   line_no = tok->display_line_no;
 }
 
+static void place_reg_chunk(bool is_fp, char *ofs, char *ptr, int add, int sz, int *gp, int *fp) {
+  if (is_fp) {
+    Printftn("%s %d+%s(%s), %%xmm%d", sz == 4 ? "movss" : "movsd", add, ofs, ptr, (*fp)++);
+    return;
+  }
+  load_chunk(ofs, ptr, add, sz, argreg8[*gp], argreg32[*gp], argreg64[*gp]);
+  (*gp)++;
+}
+
 static void place_reg_arg(Type *ty, char *ofs, char *ptr, int *gp, int *fp) {
   switch (ty->kind) {
   case TY_STRUCT:
   case TY_UNION:
-    if (has_flonum1(ty))
-      Printftn("movsd %s(%s), %%xmm%d", ofs, ptr, (*fp)++);
-    else
-      Printftn("mov %s(%s), %s",  ofs, ptr, argreg64[(*gp)++]);
-
-    if (has_second(ty)) {
-      if (has_flonum2(ty))
-        Printftn("movsd 8+%s(%s), %%xmm%d", ofs, ptr, (*fp)++);
-      else
-        Printftn("mov 8+%s(%s), %s",  ofs, ptr, argreg64[(*gp)++]);
-    }
+    place_reg_chunk(has_flonum1(ty), ofs, ptr, 0, MIN(8, ty->size), gp, fp);
+    if (has_second(ty))
+      place_reg_chunk(has_flonum2(ty), ofs, ptr, 8, ty->size - 8, gp, fp);
     return;
   case TY_FLOAT:
     Printftn("movss %s(%s), %%xmm%d", ofs, ptr, (*fp)++);
-- 
2.43.0


From 785c651bbf20516ba3863ae5b313d543f660a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:36 +0000
Subject: [PATCH 34/34] fix: keep the qualifiers of array elements and of
 anonymous members

An array qualified through its struct, a typedef name or an anonymous
member lost the qualifiers once it was converted to a pointer (*(s.a + 1),
1[s.a], (0, s.a)[1], parameters of array typedef type), members of an
anonymous struct in a qualified object lost them altogether, and ?: kept
only those of its second operand. Reads of such volatile objects were
dropped or merged.
---
 parse.c | 24 +++++++++++++++---------
 type.c  | 33 ++++++++++++++++++++++++++-------
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/parse.c b/parse.c
index bf0f41f..d9a190e 100644
--- a/parse.c
+++ b/parse.c
@@ -1046,7 +1046,7 @@ static Type *func_params_old_style(Token **rest, Token *tok, Type *fn_ty) {
       else if (ty->kind == TY_FLOAT)
         promoted = new_lvar(NULL, ty_double);
       else if (ty->kind == TY_ARRAY || ty->kind == TY_VLA)
-        ty = pointer_to(ty->base);
+        ty = array_to_pointer(ty);
       else if (ty->kind == TY_FUNC)
         ty = pointer_to(ty);
 
@@ -1129,12 +1129,18 @@ static Type *func_params(Token **rest, Token *tok, Type *ty) {
     if (is_array(ty2)) {
       // "array of T" is converted to "pointer to T" only in the parameter
       // context. For example, *argv[] is converted to **argv by this.
-      Type *ty3 = pointer_to(ty2->base);
-      ty3->is_atomic = ty2->is_atomic;
-      ty3->is_const = ty2->is_const;
-      ty3->is_volatile = ty2->is_volatile;
-      ty3->is_restrict = ty2->is_restrict;
-      ty2 = ty3;
+      // The qualifiers of a typedef name belong to the elements,
+      // those inside of [] to the pointer.
+      if (ty2->origin) {
+        ty2 = array_to_pointer(ty2);
+      } else {
+        Type *ty3 = pointer_to(ty2->base);
+        ty3->is_atomic = ty2->is_atomic;
+        ty3->is_const = ty2->is_const;
+        ty3->is_volatile = ty2->is_volatile;
+        ty3->is_restrict = ty2->is_restrict;
+        ty2 = ty3;
+      }
     } else if (ty2->kind == TY_FUNC) {
       // Likewise, a function is converted to a pointer to a function
       // only in the parameter context.
@@ -3973,7 +3979,7 @@ static Node *struct_ref(Node *node, Token *tok) {
 
     if (mem->name)
       break;
-    ty = mem->ty;
+    ty = node->ty;
   }
   return node;
 }
@@ -4142,7 +4148,7 @@ static Node *generic_selection(Token **rest, Token *tok) {
   if (t1->kind == TY_FUNC)
     t1 = pointer_to(t1);
   else if (is_array(t1))
-    t1 = pointer_to(t1->base);
+    t1 = array_to_pointer(t1);
   else
     t1 = unqual(t1);
 
diff --git a/type.c b/type.c
index 5ff398c..06ded04 100644
--- a/type.c
+++ b/type.c
@@ -263,9 +263,25 @@ Type *pointer_to(Type *base) {
   return ty;
 }
 
+static Type *add_cv_qualifiers(Type *ty, Type *ty2) {
+  if (ty->is_const < ty2->is_const || ty->is_volatile < ty2->is_volatile) {
+    ty = new_qualified_type(ty);
+    ty->is_const |= ty2->is_const;
+    ty->is_volatile |= ty2->is_volatile;
+  }
+  return ty;
+}
+
+// The qualifiers of an array are those of its elements.
+static Type *element_type(Type *ty) {
+  if (ty->kind != TY_PTR)
+    return add_cv_qualifiers(ty->base, ty);
+  return ty->base;
+}
+
 Type *array_to_pointer(Type *ty) {
   if (ty->base && ty->kind != TY_PTR)
-    return pointer_to(ty->base);
+    return pointer_to(element_type(ty));
   return ty;
 }
 
@@ -368,8 +384,10 @@ static Type *get_common_type(Node **lhs, Node **rhs, bool handle_ptr) {
       return array_to_pointer(ty2);
 
     if (ty1->base && ty2->base) {
-      if (is_compatible(ty1->base, ty2->base))
-        return array_to_pointer(ty1);
+      if (is_compatible(ty1->base, ty2->base)) {
+        Type *base = add_cv_qualifiers(element_type(ty1), element_type(ty2));
+        return (base == ty1->base) ? array_to_pointer(ty1) : pointer_to(base);
+      }
       return pointer_to(ty_void);
     }
   }
@@ -443,7 +461,7 @@ void add_type(Node *node) {
     Node **ptr = node->lhs->ty->base ? &node->lhs : node->rhs->ty->base ? &node->rhs : NULL;
     if (ptr) {
       if ((*ptr)->ty->kind != TY_PTR)
-        *ptr = new_cast(*ptr, pointer_to((*ptr)->ty->base));
+        *ptr = new_cast(*ptr, array_to_pointer((*ptr)->ty));
       node->ty = (*ptr)->ty;
       return;
     }
@@ -514,8 +532,9 @@ void add_type(Node *node) {
   case ND_COND:
     if (node->then->ty->kind == TY_VOID || node->els->ty->kind == TY_VOID) {
       node->ty = ty_void;
-    } else if (!is_numeric(node->then->ty) && is_compatible(node->then->ty, node->els->ty)) {
-      node->ty = array_to_pointer(node->then->ty);
+    } else if (!is_numeric(node->then->ty) && !node->then->ty->base &&
+      is_compatible(node->then->ty, node->els->ty)) {
+      node->ty = node->then->ty;
     } else {
       usual_arith_conv(&node->then, &node->els, true);
       node->ty = node->then->ty;
@@ -539,7 +558,7 @@ void add_type(Node *node) {
     if (node->lhs->ty->base->kind == TY_VOID)
       error_tok(node->tok, "dereferencing a void pointer");
 
-    node->ty = node->lhs->ty->base;
+    node->ty = element_type(node->lhs->ty);
     return;
   case ND_STMT_EXPR:
     if (node->body) {
-- 
2.43.0

