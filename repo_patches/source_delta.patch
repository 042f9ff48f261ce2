From 0b148aaf7a823d65140a499acd4137a64c7763d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 01/36] fix: start a new object record when CODE resumes after
 DUMMY

Bytes skipped while in DUMMY mode advanced pc but not the pending record, so
bytes emitted after CODE were appended to a record with the wrong address.
---
 src/scode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scode.c b/src/scode.c
index bc85b32..fd0ab2e 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -72,7 +72,7 @@ void insert8(unsigned char x)
   {
     if (scode != NULL)
     {
-      if (rawnumber >= 16)
+      if (rawnumber >= 16 || rawstart + rawnumber != pc)
       {
         flushscoderaw();
       }
-- 
2.43.0


From cf1d4b5ec97424fc06028f51c47606c4affe31cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 02/36] fix: reset every field of a constant result

A constant kept the modifier of the previous expression result, so that e.g.
"IF 0" after "LD B,A" was taken as true.
---
 src/operator.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operator.c b/src/operator.c
index e589756..bd620cc 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -35,6 +35,8 @@ static void cst(struct result* presult, long int val)
 {
   presult->flags = 0;
   presult->type = L_ABSOLUTE;
+  presult->modifier = 0;
+  presult->ptr = NULL;
   presult->value = val;
 }
 
-- 
2.43.0


From be4892a1e2951cabc2dba8f2c2f25b136e315c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 03/36] fix: register range in an expression no longer loops
 forever

---
 src/operator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index bd620cc..081b9de 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -345,7 +345,7 @@ void opsub(struct result* presult, struct result* parg)
 
     while (lo <= hi)
     {
-      presult->value |= 1 << lo;
+      presult->value |= 1 << lo++;
     }
   }
   else
-- 
2.43.0


From 76fe3d2947a6b7faa7919a9c720a0c02dedb8041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 04/36] fix: dividing the most negative value by -1 no longer
 crashes

---
 src/operator.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index 081b9de..952999e 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -414,7 +414,11 @@ void opdiv(struct result* presult, struct result* parg)
   presult->flags |= parg->flags;
   checktype(presult, L_ABSOLUTE);
   checktype(parg, L_ABSOLUTE);
-  if (parg->value != 0)
+  if (parg->value == -1)
+  {
+    presult->value = -(unsigned long)presult->value;
+  }
+  else if (parg->value != 0)
   {
     presult->value /= parg->value;
   }
-- 
2.43.0


From 62982f3d7a1c04e84b1e1765d57eae0bc5eb7410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 05/36] fix: binary constants over 32 bits overflow

The threshold let 33-bit binary constants through.
---
 src/operator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index 952999e..a02c416 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -166,7 +166,7 @@ void cstbinary(struct result* presult, char* s)
 
     r = *s - '0';
 
-    if (val > 0xefffffff)
+    if (val > 0x7fffffff)
     {
       error(overflow);
     }
-- 
2.43.0


From e85e7477141a0a56301952f547336b3a6024d674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 06/36] fix: ASC rejects an unterminated string

It used to read past the end of the operand.
---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 802939c..6b45e8d 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -232,6 +232,11 @@ int Xasc(int modifier, char* label, char* mnemo, char* oper)
 
   while ((r = *++s) != delimiter)
   {
+    if (r == 0)
+    {
+      error("unterminated string");
+    }
+
     if (r == '\\')
     {
       switch (*++s)
-- 
2.43.0


From d10e5a96c11546903995303f28cd0bca7099cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 07/36] fix: DS rejects a negative size

It used to loop nearly forever.
---
 src/pseudos.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 6b45e8d..a8cc9f6 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -185,6 +185,12 @@ int Xds(int modifier, char* label, char* mnemo, char* oper)
 
   r = parse(oper);
   checktype(r, L_ABSOLUTE);
+
+  if (r->value < 0)
+  {
+    error("negative size");
+  }
+
   i = r->value;
 
   while (i--)
-- 
2.43.0


From 9441a02334c32d3e26677d774fc0ff0897461367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 08/36] fix: no spurious "Unexpected End of File"

A last line without a newline, or a file or macro used on the last line,
raised the error although ENDC or ENDM was there to be read.
---
 src/macro.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index c107558..1efdba7 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -44,6 +44,16 @@ extern int errnumber;
 #define ENDM  0x21
 #define EXITM 0x22
 
+/*  the main file is exhausted and there was no line left to read  */
+
+extern int sourcelevel;
+
+static int endofsource(void)
+{
+  return feof(file) && sourcelevel == 0 && *curline == 0;
+}
+
+
 /*  if, else, endc  */
 
 int Xelse(int status, char* label, char* mnemo, char* oper)
@@ -233,7 +243,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
 
     linegets(curline, 250);
 
-    if (feof(file))
+    if (endofsource())
     {
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
@@ -306,7 +316,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
 
     linegets(curline, 250);
 
-    if (feof(file))
+    if (endofsource())
     {
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
@@ -451,7 +461,7 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
     zerobuffer();
     linegets(curline, 250);
 
-    if (feof(file))
+    if (endofsource())
     {
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
-- 
2.43.0


From db96c706c838fea7d964c41f777e8688d7067b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 09/36] fix: read a file included by an unterminated last line

INCLUDE on a last line without a newline was not read in pass 1, and then
read first in pass 2.
---
 src/crasm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index f09dcf3..630c559 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -43,6 +43,7 @@ int errnumber;
 int warnnumber;
 int segment;
 extern int includelevel;
+extern int sourcelevel;
 extern int thiscall;
 struct label* starlabel;
 int llen;
@@ -262,7 +263,7 @@ void pass(int n)
 
   errnumber = warnnumber = 0;
 
-  while (!feof(file))
+  while (!feof(file) || sourcelevel > 0)
   {
     if (setjmp(errorjump))
     {
-- 
2.43.0


From 8e5430600005e5602433ce05368a3cb901637e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 10/36] fix: long FAIL messages no longer overflow a buffer

---
 src/crasm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index 630c559..27e3bf8 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -596,7 +596,7 @@ start:
 
 void error(char* s)
 {
-  char raw[80];
+  char raw[300];
   int oldflags;
   char c = toupper(*s);
 
@@ -629,7 +629,7 @@ void error(char* s)
 
 void warning(char* s)
 {
-  char raw[80];
+  char raw[300];
   char c = toupper(*s);
 
   if (!(asmflags & F_NOWARNING))
-- 
2.43.0


From b1f36c9b8d47a8fb687b79db7653c8b2be8c0831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 11/36] fix: a long operand list no longer overflows the filter
 buffer

Each filter() of one line appends to the buffer; some 100 DB operands were
enough to run past its end and mis-assemble.
---
 src/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.c b/src/filter.c
index b4a88ed..0862a5b 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -31,7 +31,7 @@
 #define SPACES   '_'    /* saute X espaces, X>=0    */
 
 char* bufferpos;
-char buffer[4000];
+char buffer[1 << 20];
 unsigned int chars_consumed_by_filter;
 
 /* zerobuffer()
-- 
2.43.0


From d0f935af75e800c2c25c23e5f8e9d2b7626e081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 12/36] fix: Z80 8-bit arithmetic rejects operands it cannot
 encode

"OR HL", "AND (1234)", "ADD A,(BC)"... silently assembled to another opcode.
---
 src/cpuz80.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 1a370cd..c590b4b 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -622,6 +622,10 @@ static int logical(int code, char* label, char* mnemo, char* oper)
     reg = 0x46;
     arg8flag = TRUE;
   }
+  else if (!isreg8(reg))
+  {
+    error(needreg8);
+  }
 
   return docode(code + reg);
 }
-- 
2.43.0


From 6fea34143faf7b836dcc0dec3afacbd8851f5f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 13/36] fix: report the code length once, not twice

The length was summed over both passes.
---
 src/crasm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 27e3bf8..c9749b4 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -45,6 +45,7 @@ int segment;
 extern int includelevel;
 extern int sourcelevel;
 extern int thiscall;
+extern unsigned long codelen;
 struct label* starlabel;
 int llen;
 int ppos;
@@ -262,6 +263,7 @@ void pass(int n)
   fprintf(stderr, "Pass #%d\n", n);
 
   errnumber = warnnumber = 0;
+  codelen = 0;
 
   while (!feof(file) || sourcelevel > 0)
   {
-- 
2.43.0


From 4a9cf05d28ae89a52c685d2d969eaf8cdc3e51de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 14/36] fix: count warnings

---
 src/crasm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crasm.c b/src/crasm.c
index c9749b4..ada5366 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -636,6 +636,7 @@ void warning(char* s)
 
   if (!(asmflags & F_NOWARNING))
   {
+    warnnumber++;
     sprintf(raw, "%7d WARNING: %c%s", linenumber, c, s + 1);
 
     for (s = raw; s[1] == ' '; s++)
-- 
2.43.0


From c8f6f01168c9f100ba0163bcff7c3c1f28f2980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 15/36] fix: BIT zp,X and BIT abs,X are 65C02 only

---
 src/cpu6502.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 3964262..c8feea3 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -248,7 +248,8 @@ static int standard(int code, char* label, char* mnemo, char* oper)
   if (cpuflag < 2)
   {
     if (mode == 4 || opcode == 0x7c || opcode == 0x89 ||
-                     opcode == 0x1a || opcode == 0x3a)
+                     opcode == 0x1a || opcode == 0x3a ||
+                     opcode == 0x34 || opcode == 0x3c)
     {
       error("illegal use of 65C02 addressing mode");
     }
-- 
2.43.0


From 0634f876a2187ff798c4f38b89039a4f30c72f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 16/36] fix: report phase errors instead of generating wrong
 code

When the value of a forward referenced label differs between both passes
(e.g. after "DS n" with n defined later), references before its definition
were silently assembled with the value of the first pass.
---
 src/label.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/label.c b/src/label.c
index 6948501..13fac44 100644
--- a/src/label.c
+++ b/src/label.c
@@ -204,6 +204,8 @@ struct label* findlabel(char* name)
 struct label* deflabel(char* name, unsigned char flags, unsigned char type, long value)
 {
   register struct label* q;
+  extern int errnumber;
+  int phase;
 
   q = searchlabel(name);
 
@@ -227,6 +229,8 @@ struct label* deflabel(char* name, unsigned char flags, unsigned char type, long
     }
   }
 
+  phase = passnumber == 2 && (q->flags & UNDEF) && (q->flags & FORWARD)
+          && q->value != value;
   q->flags &= USED | NOREDEF | FORWARD;
   flags    &= ~USED;
 
@@ -234,6 +238,12 @@ struct label* deflabel(char* name, unsigned char flags, unsigned char type, long
   q->flags |= flags;
   q->ptr = NULL;
   q->value = value;
+
+  if (phase && errnumber == 0)
+  {
+    error("phase error: forward references saw another value");
+  }
+
   return q;
 }
 
-- 
2.43.0


From c9db0358fb04e20d586c5e5be394cb90777144c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 17/36] fix: check the name of a label alone on its line

"1abc" or "a-b" used to define a label.
---
 src/crasm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index ada5366..169edff 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -491,6 +491,11 @@ start:
     {
       label = mnemo;
 
+      if (checklabel(label) == FALSE)
+      {
+        error("malformed label");
+      }
+
       if (status & 2)
       {
         herelabel(label);
-- 
2.43.0


From 27bfaee4d76ef20a71ed253cb63bacc585180bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 18/36] fix: lines skipped by a conditional raise no error

Unknown mnemonics and labels in the branch that is not assembled were
reported as errors.
---
 src/crasm.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index 169edff..e419826 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -449,7 +449,7 @@ int asmline(char* s, int status)
     mnemo = "equ";
     labmnemo = findmnemo(mnemo);
 
-    if (checklabel(label) == FALSE)
+    if ((status & 2) && checklabel(label) == FALSE)
     {
       error("malformed label");
     }
@@ -469,7 +469,7 @@ start:
       {
         label = mnemo;
 
-        if (checklabel(label) == FALSE)
+        if ((status & 2) && checklabel(label) == FALSE)
         {
           error("malformed label");
         }
@@ -485,6 +485,16 @@ start:
     }
   }
 
+  if (labmnemo == NULL && !(status & 2))
+  {
+    if (status & 1)
+    {
+      outputline();
+    }
+
+    return 0;
+  }
+
   if (labmnemo == NULL)
   {
     if (linestartswithoutblanks && label == NULL && oper == NULL && mnemo != NULL)
@@ -514,7 +524,7 @@ start:
 
   if (labmnemo->flags & NOLABEL)
   {
-    if (label)
+    if (label && status & 2)
     {
       error("labels not allowed here");
     }
@@ -522,7 +532,7 @@ start:
 
   if (labmnemo->flags & DEFLABEL)
   {
-    if (!label)
+    if (!label && (status & 2 || labmnemo->flags & DEFMACRO))
     {
       error("label required here");
     }
-- 
2.43.0


From 0f3d10605f224478a55ecf6b479143f0122b9619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 19/36] fix: report lines that are too long

A line of 250 characters or more was silently assembled as two lines.
---
 src/macro.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 1efdba7..fc4fe0f 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -575,8 +575,21 @@ void linegets(char* buffer, int length)
   {
     register char* s1;
     register char* s2;
+    int c, toolong;
     buffer[0] = 0;
     s1 = fgets(buffer, length, source[slevel].filedesc.file);
+    toolong = FALSE;
+
+    if (s1 && strlen(buffer) == length - 1 && buffer[length - 2] != '\n')
+    {
+      c = getc(source[slevel].filedesc.file);
+
+      if (c != EOF && c != '\n')
+      {
+        toolong = TRUE;
+      }
+    }
+
     s2 = buffer;
     s1 = buffer;
 
@@ -606,10 +619,25 @@ void linegets(char* buffer, int length)
       fflush(stderr);
     }
 
+    if (toolong)
+    {
+      /* the rest of the line was not read yet  */
+      while ((c = getc(source[slevel].filedesc.file)) != EOF && c != '\n')
+      {
+        ;
+      }
+    }
+
     if (feof(source[slevel].filedesc.file))
     {
       source[slevel].type = S_END;
     }
+
+    if (toolong)
+    {
+      advance = 0;
+      error("line too long");
+    }
   }
   else
   {
-- 
2.43.0


From acf0fb72fe157a89bfdd001b4b9b2a72ad91cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 20/36] fix: a name containing ENDM does not end a macro

"LDA ENDMSG" in a macro body ended the definition with an error.
---
 src/macro.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index fc4fe0f..5e78095 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -414,6 +414,19 @@ int Xendm(int status, char* label, char* mnemo, char* oper)
 }
 
 
+/*  is ENDM one of the words of this line  */
+
+static int hasendm(char* s)
+{
+  char* dummy;
+
+  return filter(s, "_ENDM_")
+         || filter(s, "_ENDM ?", &dummy)
+         || filter(s, "_? _ENDM_", &dummy)
+         || filter(s, "_? _ENDM ?", &dummy, &dummy);
+}
+
+
 int Xmacro(int status, char* label, char* mnemo, char* oper)
 {
   jmp_buf errjmpsav;
@@ -484,11 +497,11 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
     {
       outputline();
     }
-  } while (! filter(s1, "_?_ENDM_?", &s1, &s2));
+  } while (!hasendm(s1));
 
   jmp_buf_copy(errorjump, errjmpsav);
 
-  if (*s1 || *s2)
+  if (!filter(s1, "_ENDM_"))
   {
     error("illegal ENDM instruction");
   }
-- 
2.43.0


From 888f161a62bfdea9032ed5da42d822abee9fc9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 21/36] fix: ROR is rejected on the 6500

The opcode word is stored in a short: its sign extension made the comparison
fail.
---
 src/cpu6502.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index c8feea3..01b6ede 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -239,7 +239,7 @@ static int standard(int code, char* label, char* mnemo, char* oper)
   /* test specials modes */
   if (cpuflag < 1)
   {
-    if (code == (0x60 | 0x100 | F_noimm | F_noindy))
+    if ((code & 0xffff) == (0x60 | 0x100 | F_noimm | F_noindy))
     {
       error("no ROR instruction on 6500");
     }
-- 
2.43.0


From 2df73960c7272d8b263694570d5d90b1bd18a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 22/36] fix: a large last address no longer overflows a buffer

---
 src/xref.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xref.c b/src/xref.c
index ed21d52..e782ef6 100644
--- a/src/xref.c
+++ b/src/xref.c
@@ -127,7 +127,7 @@ void result(void)
 {
   extern int errnumber;
   extern int warnnumber;
-  char buffer[40];
+  char buffer[80];
 
   if (plen - ppos < 10)
   {
-- 
2.43.0


From 12494bd808742c22a2ee8a365058669463117790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 23/36] fix: report unprintable characters with the number of
 their line

---
 src/macro.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 5e78095..42dea2e 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -619,13 +619,13 @@ void linegets(char* buffer, int length)
 
     *s2 = 0;
 
+    linenumber++;
+
     if (s1 != s2)
     {
       warning("Unprintable characters removed");
     }
 
-    linenumber++;
-
     if ((linenumber & 7) == 1 && passnumber == 1)
     {
       fprintf(stderr, "%d    \r", linenumber);
-- 
2.43.0


From bd39f8e2d62e28b30076c81f03aeac6a9f264a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 24/36] fix: a directory as source file is an error, not an
 endless loop

fopen() succeeds on a directory, every read from it fails without end of
file, so crasm went on assembling empty lines for ever.
---
 src/crasm.c |  3 ++-
 src/macro.c | 30 +++++++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index e419826..4aac837 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -37,6 +37,7 @@
 
 extern struct label* searchlabel();
 extern struct label pseudos[];
+extern FILE* opensource(char* name);
 
 jmp_buf errorjump;
 int errnumber;
@@ -160,7 +161,7 @@ int main(int argc, char** argv)
 void crasm(int flag)
 {
   init_label_list(pseudos);
-  file = fopen(filename, "r");
+  file = opensource(filename);
 
   if (file == NULL)
   {
diff --git a/src/macro.c b/src/macro.c
index 42dea2e..247ba11 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -729,6 +729,34 @@ void linegets(char* buffer, int length)
   }
 }
 
+/*  open a source file, which must be readable (not a directory)  */
+
+FILE* opensource(char* name)
+{
+  FILE* f;
+  int c;
+
+  f = fopen(name, "r");
+
+  if (f != NULL)
+  {
+    c = getc(f);
+
+    if (c != EOF)
+    {
+      ungetc(c, f);
+    }
+    else if (ferror(f))
+    {
+      fclose(f);
+      f = NULL;
+    }
+  }
+
+  return f;
+}
+
+
 /* include   */
 int Xinclude(int modifier, char* label, char* mnemo, char* oper)
 {
@@ -740,7 +768,7 @@ int Xinclude(int modifier, char* label, char* mnemo, char* oper)
     error("no filename");
   }
 
-  f = fopen(oper, "r");
+  f = opensource(oper);
 
   if (f == NULL)
   {
-- 
2.43.0


From 54b8c77abed94c1ad11f9379751f05460900bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 25/36] fix: a line length of 1000 no longer overflows the line
 buffer

The buffer of 1000 characters has no room for the end of a full line.
---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 389e396..b835d1f 100644
--- a/src/output.c
+++ b/src/output.c
@@ -82,7 +82,7 @@ void setpage(int xplen, int xllen)
     warning("page redefinition");
   }
 
-  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen > (int)sizeof(linebuffer))
+  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen >= (int)sizeof(linebuffer))
   {
     error("illegal values");
   }
-- 
2.43.0


From dd1783f7470e4f58e9a5ec1910e70d1b8cdcd5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 26/36] fix: operand A is rejected where there is no
 accumulator form

---
 src/cpu6502.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 01b6ede..baf212c 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -184,6 +184,11 @@ static int standard(int code, char* label, char* mnemo, char* oper)
 
     if (mode == 10 && r->type == L_REGS && r->modifier == 0)
     {
+      if (code & F_noacc)
+      {
+        error("illegal addressing mode");
+      }
+
       mode = 15;
     }
     else
-- 
2.43.0


From 7bb64833f8f805a87372c05f215574fcb23f7b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 27/36] fix: MLIST inside a macro does not lose or repeat the
 line of the call

---
 src/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 247ba11..806a8e2 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -924,7 +924,7 @@ int macrocall(struct label* labmacro, int status, char* oper)
     error("ELSE or ENDC illegal here");
   }
 
-  if (!(asmflags & F_MACROLIST_ON))
+  if (!(mystatus & 1))
   {
     strcpy(curline, curlinesav);
 
-- 
2.43.0


From 9ed48cf2f9227af60cd12d4934d3af7403088a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 28/36] fix: macro arguments longer than 59 characters are no
 longer cut

---
 src/macro.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 806a8e2..739f3cb 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -535,7 +535,7 @@ union
     byte oldlist;
     byte oldprefix;
     int  oldlinnum;
-    char (*replace)[60];
+    char (*replace)[256];
     int  numarg;
     struct macroline* mlineptr;
   } macrodesc;
@@ -656,7 +656,7 @@ void linegets(char* buffer, int length)
   {
     register struct macroline* q;
     int numarg;
-    char (*replace)[60];
+    char (*replace)[256];
     register char* s1;
     register char* s2;
 
@@ -812,7 +812,7 @@ extern int segment;
 
 int macrocall(struct label* labmacro, int status, char* oper)
 {
-  char replace[10][60];
+  char replace[10][256];
   register int slevel, flag;
   int numarg, oldsegment, mystatus;
   jmp_buf errjmpsav;
@@ -838,8 +838,8 @@ int macrocall(struct label* labmacro, int status, char* oper)
 
   if (oper && *oper)
   {
-    strncpy(replace[9], oper, 59);
-    replace[9][59] = 0;
+    strncpy(replace[9], oper, 255);
+    replace[9][255] = 0;
   }
 
   while (oper && *oper)
@@ -855,13 +855,13 @@ int macrocall(struct label* labmacro, int status, char* oper)
     if (filter(oper, "?_,_?", &arg1, &arg2))
     {
       oper = arg2;
-      strncpy(replace[numarg], arg1, 59);
-      replace[numarg++][59] = 0;
+      strncpy(replace[numarg], arg1, 255);
+      replace[numarg++][255] = 0;
     }
     else
     {
-      strncpy(replace[numarg], oper, 59);
-      replace[numarg++][59] = 0;
+      strncpy(replace[numarg], oper, 255);
+      replace[numarg++][255] = 0;
       oper = NULL;
     }
   }
-- 
2.43.0


From bb306955b46c5538a2bc8d585cec54585cf73da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 29/36] fix: warn when a macro argument makes a line too long

---
 src/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 739f3cb..0779fcd 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -711,7 +711,9 @@ void linegets(char* buffer, int length)
         {
           if (s1 - buffer > length - 10)
           {
-            break;
+            *s1 = 0;
+            warning("Too long line");
+            return;
           }
 
           *s1++ = *s++;
-- 
2.43.0


From fd58e7abdb4e7d6f3e076fca4d5d9ea7b38b0084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 30/36] fix: a too long line at the very beginning does not
 crash

---
 src/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.c b/src/filter.c
index 0862a5b..8fe059f 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -30,8 +30,8 @@
 #define WILDCARD '?'    /* n'importe quoi. test () '' "" \x */
 #define SPACES   '_'    /* saute X espaces, X>=0    */
 
-char* bufferpos;
 char buffer[1 << 20];
+char* bufferpos = buffer;
 unsigned int chars_consumed_by_filter;
 
 /* zerobuffer()
-- 
2.43.0


From 1939cccf3c092422227bdd87b93de10c5b84ba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 31/36] fix: a directory given as object file is not removed
 after an error

---
 src/crasm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index 4aac837..13b6f4a 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -26,6 +26,7 @@
 */
 
 #include "dcl.h"
+#include <unistd.h>
 #include "version.h"
 #include "label.h"
 
@@ -221,7 +222,7 @@ void crasm(int flag)
 
   if (errnumber && (flag & SCODE))
   {
-    remove(scodename);
+    unlink(scodename); /* removes no directory  */
   }
 
   if (flag & XREF)
-- 
2.43.0


From 6d8cf902b1143c3b827a39ea4c06641f09a8e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 32/36] fix: long names were cut when they were looked up, so
 that names alike in their beginnings were taken for one

---
 src/label.c | 10 +++++-----
 src/label.h |  5 ++++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/label.c b/src/label.c
index 13fac44..8243a10 100644
--- a/src/label.c
+++ b/src/label.c
@@ -78,7 +78,7 @@ int checklabel(char* name)
    stocke dans  addrpos  l'adresse du pointeur vers ce label
 */
 static struct label** addrpos;
-static char localname[LABLEN + 2];
+static char localname[NAMELEN + 2];
 
 struct label* searchlabel(char* name)
 {
@@ -99,7 +99,7 @@ struct label* searchlabel(char* name)
     }
   }
 
-  while (s - localname < LABLEN)
+  while (s - localname < NAMELEN)
   {
     if (*name)
     {
@@ -116,7 +116,7 @@ struct label* searchlabel(char* name)
   q = lroot;
   addrpos = &lroot;
 
-  while (q != NULL && (r = strncmp(s, q->name, LABLEN)) != 0)
+  while (q != NULL && (r = strncmp(s, q->name, NAMELEN)) != 0)
   {
     if (r > 0)
     {
@@ -169,7 +169,7 @@ struct label* makelabel(char* name, unsigned char flags, unsigned char type)
 
   *addrpos = q;
 
-  strncpy(q->name, localname, LABLEN);
+  strncpy(q->name, localname, NAMELEN);
   q->type  = type;
   q->flags = flags;
 
@@ -295,7 +295,7 @@ void init_label_list(struct label* array)
       else
       {
         *addrpos = q;
-        strncpy(q->name, localname, LABLEN);
+        strncpy(q->name, localname, NAMELEN);
       }
 
       i += incr;
diff --git a/src/label.h b/src/label.h
index f2da603..de0ac17 100644
--- a/src/label.h
+++ b/src/label.h
@@ -30,11 +30,14 @@
 
 #define LABLEN 48
 
+/* in the tree, the number of its segment precedes a local name */
+#define NAMELEN (LABLEN + 12)
+
 struct label
 {
   struct label* left;
   struct label* right;
-  char name[LABLEN];
+  char name[NAMELEN];
   byte flags;
   byte type;
   short modifier;
-- 
2.43.0


From 89e14df493c90c8e810e1f6b54ae4a586e392996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 33/36] fix: DDB with an error left the byte order swapped for
 the rest of the program

---
 src/pseudos.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pseudos.c b/src/pseudos.c
index a8cc9f6..4a79937 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -117,9 +117,18 @@ static void stocke(char* s, int modifier)
 
   case 2:
     mask = 0xffff0000;
-    asmflags ^= F_LOHI;
-    insert16(r->value);
-    asmflags ^= F_LOHI;
+
+    if (asmflags & F_LOHI)
+    {
+      insert8(r->value >> 8);
+      insert8(r->value);
+    }
+    else
+    {
+      insert8(r->value);
+      insert8(r->value >> 8);
+    }
+
     break;
 
   case 3:
-- 
2.43.0


From 6008f3d819333b2862932d440faf9e421061a928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 34/36] fix: a macro ended by a malformed ENDM stopped the
 assembly with an internal error when called

---
 src/macro.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 0779fcd..d155e28 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -433,6 +433,7 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
   char* s1;
   char* s2;
   struct macroline* startmacro;
+  struct macroline* last = NULL;
   register struct macroline** where;
   char mname[LABLEN + 1];
   struct label* lbl = 0;
@@ -490,6 +491,7 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
       *where = (struct macroline*) malloc(sizeof(struct macroline) + strlen(s1));
       (*where)->next = NULL;
       strcpy((*where)->line, s1);
+      last = *where;
       where = & ((*where)->next);
     }
 
@@ -501,14 +503,19 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
 
   jmp_buf_copy(errorjump, errjmpsav);
 
-  if (!filter(s1, "_ENDM_"))
+  if (lbl)
   {
-    error("illegal ENDM instruction");
+    lbl->ptr = (void*)startmacro;
   }
 
-  if (lbl)
+  if (!filter(s1, "_ENDM_"))
   {
-    lbl->ptr = (void*)startmacro;
+    if (last)
+    {
+      strcpy(last->line, "ENDM"); /* no longer than the erroneous line */
+    }
+
+    error("illegal ENDM instruction");
   }
 
   return 0;
-- 
2.43.0


From 713ff8e490bcaecff3489f97101ed2c14b643e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 35/36] fix: shifts in the condition of an IF were taken for
 comparisons

---
 src/macro.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index d155e28..8f56620 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -101,9 +101,29 @@ static struct compar
 
 static struct result zero = { 0, L_ABSOLUTE, 0, 0, 0 };
 
+/* hideshifts(d,s)
+   Copie s dans d en masquant << et >>, qui ne sont pas des comparaisons
+*/
+static void hideshifts(char* d, const char* s)
+{
+  while ((*d = *s))
+  {
+    if ((*s == '<' || *s == '>') && s[1] == *s)
+    {
+      *d++ = '.';
+      *d = '.';
+      s++;
+    }
+
+    d++;
+    s++;
+  }
+}
+
 static int testtrue(char* oper)
 {
   char* s1, *s2;
+  char hidden[256];
   register struct compar* q;
   struct result r1, r2;
 
@@ -113,11 +133,14 @@ static int testtrue(char* oper)
   }
 
   q = compar;
+  hideshifts(hidden, oper);
 
   while (q->comp)
   {
-    if (filter(oper, q->comp, &s1, &s2))
+    if (filter(hidden, q->comp, &s1, &s2))
     {
+      memcpy(s1, oper, strlen(s1));
+      memcpy(s2, oper + strlen(oper) - strlen(s2), strlen(s2));
       break;
     }
 
-- 
2.43.0


From 0ccc1c74e4bc98a58ad593a82741f78b6b082935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:25 +0000
Subject: [PATCH 36/36] fix: words with a suffix were taken for instructions
 (neg.w, rol.w)

---
 src/crasm.c | 16 ----------------
 src/label.h |  3 +--
 2 files changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index 13b6f4a..986cdb5 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -318,26 +318,10 @@ static void herelabel(char* label)
 
 static struct label* findmnemo(char* mnemo)
 {
-  char* aux1;
-  char* aux2;
   register struct label* labmnemo;
 
   labmnemo = searchlabel(mnemo);
 
-  if (labmnemo == NULL) /* sizer 68k */
-  {
-    if (filter(mnemo, "?.?", &aux1, &aux2))
-    {
-      if ((labmnemo = searchlabel(aux1)))
-      {
-        if (labmnemo->modifier >= 0)
-        {
-          labmnemo = NULL;
-        }
-      }
-    }
-  }
-
   if (labmnemo)
   {
     if (!(labmnemo->flags & UNDEF))
diff --git a/src/label.h b/src/label.h
index de0ac17..11dfa8a 100644
--- a/src/label.h
+++ b/src/label.h
@@ -62,8 +62,7 @@ struct result
 #define L_REGS    5
 #define L_DIRECTBIT 6 /* etc... */
 
-/* flags
-modifier < 0 =>         size field allowed 68k-like */
+/* flags */
 
 #define UNDEF     (1<<0)
 #define FORWARD   (1<<1)
-- 
2.43.0

