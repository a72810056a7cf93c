From de2e638dfd23f38f471517eae6691ba76f81410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 01/26] fix: grep options share one name with their long
 spellings, --color takes no word, -NUM is a flag

---
 .../command_flag_option_info/data/grep.json   | 75 ++++++++++++-------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/grep.json b/pash_annotations/parser/command_flag_option_info/data/grep.json
index 11aa936..7c2ea20 100644
--- a/pash_annotations/parser/command_flag_option_info/data/grep.json
+++ b/pash_annotations/parser/command_flag_option_info/data/grep.json
@@ -124,14 +124,57 @@
         [
             "-z",
             "--null-data"
+        ],
+        [
+            "--color",
+            "--colour"
+        ],
+        [
+            "--color=always",
+            "--colour=always"
+        ],
+        [
+            "--color=auto",
+            "--colour=auto"
+        ],
+        [
+            "--color=never",
+            "--colour=never"
+        ],
+        [
+            "-0"
+        ],
+        [
+            "-1"
+        ],
+        [
+            "-2"
+        ],
+        [
+            "-3"
+        ],
+        [
+            "-4"
+        ],
+        [
+            "-5"
+        ],
+        [
+            "-6"
+        ],
+        [
+            "-7"
+        ],
+        [
+            "-8"
+        ],
+        [
+            "-9"
         ]
     ],
     "option": [
         [
             "-e",
-            "PATTERNS"
-        ],
-        [
             "--regexp",
             "PATTERNS"
         ],
@@ -140,19 +183,8 @@
             "--file",
             ["FILE", "CONFIG_INPUT"]
         ],
-        [
-            "--color",
-            "WHEN"
-        ],
-        [
-            "--colour",
-            "WHEN"
-        ],
         [
             "-m",
-            "NUM"
-        ],
-        [
             "--max-count",
             "NUM"
         ],
@@ -162,25 +194,16 @@
         ],
         [
             "-A",
-            "NUM"
-        ],
-        [
             "--after-context",
             "NUM"
         ],
         [
             "-B",
-            "NUM"
-        ],
-        [
             "--before-context",
             "NUM"
         ],
         [
             "-C",
-            "NUM"
-        ],
-        [
             "--context",
             "NUM"
         ],
@@ -194,17 +217,11 @@
         ],
         [
             "-D",
-            "ACTION"
-        ],
-        [
             "--devices",
             "ACTION"
         ],
         [
             "-d",
-            "ACTION"
-        ],
-        [
             "--directories",
             "ACTION"
         ],
-- 
2.43.0


From d666795b6ecd3c494509e44f4771695ce41f8c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 02/26] fix: uniq -f, -s and -w take an argument,
 --all-repeated and --group take none

---
 .../command_flag_option_info/data/uniq.json   | 37 +++++++++++++------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/uniq.json b/pash_annotations/parser/command_flag_option_info/data/uniq.json
index 5ef076d..7b841c6 100644
--- a/pash_annotations/parser/command_flag_option_info/data/uniq.json
+++ b/pash_annotations/parser/command_flag_option_info/data/uniq.json
@@ -11,12 +11,33 @@
         [
             "-D"
         ],
-        "-f",
+        [
+            "--all-repeated",
+            "--all-repeated=none"
+        ],
+        [
+            "--all-repeated=prepend"
+        ],
+        [
+            "--all-repeated=separate"
+        ],
+        [
+            "--group",
+            "--group=separate"
+        ],
+        [
+            "--group=prepend"
+        ],
+        [
+            "--group=append"
+        ],
+        [
+            "--group=both"
+        ],
         [
             "-i",
             "--ignore-case"
         ],
-        "-s",
         [
             "-u",
             "--unique"
@@ -25,7 +46,6 @@
             "-z",
             "--zero-terminated"
         ],
-        "-w",
         [
             "--help"
         ],
@@ -35,22 +55,17 @@
     ],
     "option": [
         [
-            "--all-repeated",
-            "METHOD"
-        ],
-        [
+            "-f",
             "--skip-fields",
             "N"
         ],
         [
-            "--group",
-            "METHOD"
-        ],
-        [
+            "-s",
             "--skip-chars",
             "N"
         ],
         [
+            "-w",
             "--check-chars",
             "N"
         ]
-- 
2.43.0


From a14977ef86ef7fefaeca4f346b4828fafaa33d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 03/26] fix: tail -c, -n and -s take an argument, -NUM is a
 flag of head and tail

---
 .../command_flag_option_info/data/head.json   | 30 +++++++++
 .../command_flag_option_info/data/tail.json   | 63 +++++++++++++++----
 2 files changed, 80 insertions(+), 13 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/head.json b/pash_annotations/parser/command_flag_option_info/data/head.json
index 0d1168d..3e983ec 100644
--- a/pash_annotations/parser/command_flag_option_info/data/head.json
+++ b/pash_annotations/parser/command_flag_option_info/data/head.json
@@ -18,6 +18,36 @@
         ],
         [
             "--version"
+        ],
+        [
+            "-0"
+        ],
+        [
+            "-1"
+        ],
+        [
+            "-2"
+        ],
+        [
+            "-3"
+        ],
+        [
+            "-4"
+        ],
+        [
+            "-5"
+        ],
+        [
+            "-6"
+        ],
+        [
+            "-7"
+        ],
+        [
+            "-8"
+        ],
+        [
+            "-9"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/tail.json b/pash_annotations/parser/command_flag_option_info/data/tail.json
index 215f6e4..3fe854d 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tail.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tail.json
@@ -1,16 +1,15 @@
 {
     "flag": [
         [
-            "-c",
-            "--bytes"
+            "-f",
+            "--follow",
+            "--follow=descriptor"
         ],
         [
-            "-f",
-            "--follow"
+            "--follow=name"
         ],
         [
-            "-n",
-            "--lines"
+            "-F"
         ],
         [
             "-q",
@@ -20,9 +19,6 @@
         [
             "--retry"
         ],
-        [
-            "-s"
-        ],
         [
             "-v",
             "--verbose"
@@ -36,20 +32,61 @@
         ],
         [
             "--version"
+        ],
+        [
+            "-0"
+        ],
+        [
+            "-1"
+        ],
+        [
+            "-2"
+        ],
+        [
+            "-3"
+        ],
+        [
+            "-4"
+        ],
+        [
+            "-5"
+        ],
+        [
+            "-6"
+        ],
+        [
+            "-7"
+        ],
+        [
+            "-8"
+        ],
+        [
+            "-9"
         ]
     ],
     "option": [
         [
-            "--max-unchanged-stats",
-            "N"
+            "-c",
+            "--bytes",
+            "NUM"
         ],
         [
-            "--pid",
-            "PID"
+            "-n",
+            "--lines",
+            "NUM"
         ],
         [
+            "-s",
             "--sleep-interval",
             "N"
+        ],
+        [
+            "--max-unchanged-stats",
+            "N"
+        ],
+        [
+            "--pid",
+            "PID"
         ]
     ]
 }
-- 
2.43.0


From a74b75138214d338ecc6b8c6fcd76230c49c247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 04/26] fix: diff -c, -u and --color take no separate argument

---
 .../command_flag_option_info/data/diff.json   | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/diff.json b/pash_annotations/parser/command_flag_option_info/data/diff.json
index 206275f..34d6046 100644
--- a/pash_annotations/parser/command_flag_option_info/data/diff.json
+++ b/pash_annotations/parser/command_flag_option_info/data/diff.json
@@ -112,17 +112,33 @@
         [
             "-v",
             "--version"
+        ],
+        [
+            "-c",
+            "--context"
+        ],
+        [
+            "-u",
+            "--unified"
+        ],
+        [
+            "--color",
+            "--color=auto"
+        ],
+        [
+            "--color=always"
+        ],
+        [
+            "--color=never"
         ]
     ],
     "option": [
         [
-            "-c",
             "-C",
             "--context",
             "NUM"
         ],
         [
-            "-u",
             "-U",
             "--unified",
             "NUM"
@@ -186,10 +202,6 @@
             "--horizon-lines",
             "NUM"
         ],
-        [
-            "--color",
-            "WHEN"
-        ],
         [
             "--palette",
             "PALETTE"
-- 
2.43.0


From c4a7f817a4945325f296baa01484e9763e747e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 05/26] fix: awk -F, -v, -e, -E, -i and -l take an argument and
 -e, -E give the program

---
 .../InputOutputInfoGeneratorAwk.py            |  2 +-
 .../command_flag_option_info/data/awk.json    | 58 +++++++++++--------
 2 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
index 5a43f70..995740d 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
@@ -7,7 +7,7 @@ class InputOutputInfoGeneratorAwk(InputOutputInfoGeneratorInterface):
         self.set_implicit_use_of_stdout()
 
         ## Does this set -f as configuration input?
-        if self.does_flag_option_list_contain_at_least_one_of(["-f"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-e", "-E"]):
             if self.get_operand_list_length() == 0:
                 self.set_implicit_use_of_stdin()
             else:
diff --git a/pash_annotations/parser/command_flag_option_info/data/awk.json b/pash_annotations/parser/command_flag_option_info/data/awk.json
index 1863995..dbb159c 100644
--- a/pash_annotations/parser/command_flag_option_info/data/awk.json
+++ b/pash_annotations/parser/command_flag_option_info/data/awk.json
@@ -1,9 +1,5 @@
 {
     "flag": [
-        [
-            "-F",
-            "--field-separator"
-        ],
         [
             "-b",
             "--characters-as-bytes"
@@ -24,14 +20,6 @@
             "-D",
             "--debug"
         ],
-        [
-            "-e",
-            "--source"
-        ],
-        [
-            "-E",
-            "--exec"
-        ],
         [
             "-g",
             "--gen-pot"
@@ -40,14 +28,6 @@
             "-h",
             "--help"
         ],
-        [
-            "-i",
-            "--include"
-        ],
-        [
-            "-l",
-            "--load"
-        ],
         [
             "-L",
             "--lint"
@@ -64,10 +44,6 @@
             "-N",
             "--use-lc-numeric"
         ],
-        [
-            "-ofile",
-            "--pretty-print"
-        ],
         [
             "-O",
             "--optimize"
@@ -95,6 +71,10 @@
         [
             "-V",
             "--version"
+        ],
+        [
+            "-o",
+            "--pretty-print"
         ]
     ],
     "option": [
@@ -102,6 +82,36 @@
             "-f",
             "--file",
             ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-F",
+            "--field-separator",
+            "FS"
+        ],
+        [
+            "-v",
+            "--assign",
+            "ASSIGNMENT"
+        ],
+        [
+            "-e",
+            "--source",
+            "PROGRAM"
+        ],
+        [
+            "-E",
+            "--exec",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-i",
+            "--include",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-l",
+            "--load",
+            "LIB"
         ]
     ]
 }
-- 
2.43.0


From 9c0edb35f0d438a2a47ee6985127a5b8de9c22ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 06/26] fix: option arity of mkfifo, tee, rm, mv, col and
 missing spellings of sort, tr

---
 .../command_flag_option_info/data/col.json    | 12 +++---
 .../command_flag_option_info/data/mkfifo.json | 11 ++---
 .../command_flag_option_info/data/mv.json     | 40 +++++++++++++++++--
 .../command_flag_option_info/data/rm.json     | 21 ++++++----
 .../command_flag_option_info/data/sort.json   |  7 +++-
 .../command_flag_option_info/data/tee.json    | 22 +++++++---
 .../command_flag_option_info/data/tr.json     |  3 +-
 7 files changed, 83 insertions(+), 33 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/col.json b/pash_annotations/parser/command_flag_option_info/data/col.json
index 0b46446..f2241e9 100644
--- a/pash_annotations/parser/command_flag_option_info/data/col.json
+++ b/pash_annotations/parser/command_flag_option_info/data/col.json
@@ -12,10 +12,6 @@
             "-h",
             "--tabs"
         ],
-        [
-            "-l",
-            "--lines"
-        ],
         [
             "-p",
             "--pass"
@@ -33,5 +29,11 @@
             "--help"
         ]
     ],
-    "option": []
+    "option": [
+        [
+            "-l",
+            "--lines",
+            "NUM"
+        ]
+    ]
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
index 327ae40..03bc933 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
@@ -1,10 +1,8 @@
 {
     "flag": [
         [
-            "-m"
-        ],
-        [
-            "-Z"
+            "-Z",
+            "--context"
         ],
         [
             "--help"
@@ -15,12 +13,9 @@
     ],
     "option": [
         [
+            "-m",
             "--mode",
             "MODE"
-        ],
-        [
-            "--context",
-            "CTX"
         ]
     ]
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/mv.json b/pash_annotations/parser/command_flag_option_info/data/mv.json
index 8b53afa..068fe77 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mv.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mv.json
@@ -40,13 +40,45 @@
         ],
         [
             "--version"
+        ],
+        [
+            "--backup=none"
+        ],
+        [
+            "--backup=off"
+        ],
+        [
+            "--backup=numbered"
+        ],
+        [
+            "--backup=t"
+        ],
+        [
+            "--backup=existing"
+        ],
+        [
+            "--backup=nil"
+        ],
+        [
+            "--backup=simple"
+        ],
+        [
+            "--backup=never"
+        ],
+        [
+            "--update=all"
+        ],
+        [
+            "--update=none"
+        ],
+        [
+            "--update=none-fail"
+        ],
+        [
+            "--update=older"
         ]
     ],
     "option": [
-        [
-            "--backup",
-            "CONTROL"
-        ],
         [
             "-S",
             "--suffix",
diff --git a/pash_annotations/parser/command_flag_option_info/data/rm.json b/pash_annotations/parser/command_flag_option_info/data/rm.json
index d5832af..d45a3ac 100644
--- a/pash_annotations/parser/command_flag_option_info/data/rm.json
+++ b/pash_annotations/parser/command_flag_option_info/data/rm.json
@@ -34,16 +34,23 @@
         ],
         [
             "--version"
-        ]
-    ],
-    "option": [
+        ],
         [
             "--interactive",
-            "WHEN"
+            "--interactive=always"
+        ],
+        [
+            "--interactive=once"
         ],
         [
-            "--preserve-root",
-            "all"
+            "--interactive=never"
+        ],
+        [
+            "--preserve-root"
+        ],
+        [
+            "--preserve-root=all"
         ]
-    ]
+    ],
+    "option": []
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/sort.json b/pash_annotations/parser/command_flag_option_info/data/sort.json
index fb61e4c..15c371e 100644
--- a/pash_annotations/parser/command_flag_option_info/data/sort.json
+++ b/pash_annotations/parser/command_flag_option_info/data/sort.json
@@ -46,10 +46,13 @@
         ],
         [
             "-c",
-            "--check"
+            "--check",
+            "--check=diagnose-first"
         ],
         [
-            "-C"
+            "-C",
+            "--check=quiet",
+            "--check=silent"
         ],
         [
             "--debug"
diff --git a/pash_annotations/parser/command_flag_option_info/data/tee.json b/pash_annotations/parser/command_flag_option_info/data/tee.json
index 52fb895..d2915ef 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tee.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tee.json
@@ -16,12 +16,22 @@
         ],
         [
             "--version"
-        ]
-    ],
-    "option": [
+        ],
+        [
+            "--output-error"
+        ],
+        [
+            "--output-error=warn"
+        ],
+        [
+            "--output-error=warn-nopipe"
+        ],
         [
-            "--output-error",
-            "MODE"
+            "--output-error=exit"
+        ],
+        [
+            "--output-error=exit-nopipe"
         ]
-    ]
+    ],
+    "option": []
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/tr.json b/pash_annotations/parser/command_flag_option_info/data/tr.json
index 8e8b092..53b9d81 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tr.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tr.json
@@ -14,7 +14,8 @@
             "--squeeze-repeats"
         ],
         [
-            "-t"
+            "-t",
+            "--truncate-set1"
         ],
         [
             "--help"
-- 
2.43.0


From fa15474aca59e50b8c26dbe7fdfadb2a5f7a45f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:04 +0000
Subject: [PATCH 07/26] fix: xargs -s and --process-slot-var take an argument,
 -e, -i, -l need none, -0 is a flag

---
 .../command_flag_option_info/data/xargs.json  | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/xargs.json b/pash_annotations/parser/command_flag_option_info/data/xargs.json
index 533ebec..2113454 100644
--- a/pash_annotations/parser/command_flag_option_info/data/xargs.json
+++ b/pash_annotations/parser/command_flag_option_info/data/xargs.json
@@ -1,6 +1,7 @@
 {
     "flag": [
         [
+            "-0",
             "--null"
         ],
         [
@@ -11,17 +12,10 @@
             "-p",
             "--interactive"
         ],
-        [
-            "--process-slot-var"
-        ],
         [
             "-r",
             "--no-run-if-empty"
         ],
-        [
-            "-s",
-            "--max-chars"
-        ],
         [
             "--show-limits"
         ],
@@ -38,6 +32,18 @@
         ],
         [
             "--version"
+        ],
+        [
+            "-e",
+            "--eof"
+        ],
+        [
+            "-i",
+            "--replace"
+        ],
+        [
+            "-l",
+            "--max-lines"
         ]
     ],
     "option": [
@@ -78,6 +84,15 @@
             "-P",
             "--max-procs",
             "max-procs"
+        ],
+        [
+            "-s",
+            "--max-chars",
+            "max-chars"
+        ],
+        [
+            "--process-slot-var",
+            "VAR"
         ]
     ]
 }
-- 
2.43.0


From a5055ae5fc1789dba4c8ebf7ae94a46f8040e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:00 +0000
Subject: [PATCH 08/26] fix: sed -e and -f take an argument, and sed reads
 stdin only without file operands

---
 .../InputOutputInfoGeneratorSed.py            | 17 ++++++++++----
 .../command_flag_option_info/data/sed.json    | 23 +++++++++----------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
index b72ed43..f3f5c04 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
@@ -4,11 +4,18 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorSed(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        self.set_implicit_use_of_stdin()
+        if self.does_flag_option_list_contain_at_least_one_of(["-i"]):
+            raise Exception('sed editing files in place is considered side-effectful for now')
         self.set_implicit_use_of_stdout()
-        if not self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
-            self.set_first_operand_as_config_arg_type_string()
-            self.all_but_first_operand_is_streaming_input()
+        if self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
+            if self.get_operand_list_length() == 0:
+                self.set_implicit_use_of_stdin()
+            else:
+                self.all_operands_are_streaming_inputs()
         else:
-            self.all_operands_are_streaming_inputs()
+            self.set_first_operand_as_config_arg_type_string()
+            if self.get_operand_list_length() == 1:
+                self.set_implicit_use_of_stdin()
+            else:
+                self.all_but_first_operand_is_streaming_input()
 
diff --git a/pash_annotations/parser/command_flag_option_info/data/sed.json b/pash_annotations/parser/command_flag_option_info/data/sed.json
index 06f9e9e..9e45d02 100644
--- a/pash_annotations/parser/command_flag_option_info/data/sed.json
+++ b/pash_annotations/parser/command_flag_option_info/data/sed.json
@@ -8,14 +8,6 @@
         [
             "--debug"
         ],
-        [
-            "-e",
-            "--expression"
-        ],
-        [
-            "-f",
-            "--file"
-        ],
         [
             "--follow-symlinks"
         ],
@@ -47,18 +39,25 @@
         ],
         [
             "--version"
+        ],
+        [
+            "-i",
+            "--in-place"
         ]
     ],
     "option": [
         [
-            "--in-place",
-            "SUFFIX"
+            "-e",
+            "--expression",
+            "SCRIPT"
         ],
         [
-            "-l",
-            "N"
+            "-f",
+            "--file",
+            ["FILE", "CONFIG_INPUT"]
         ],
         [
+            "-l",
             "--line-length",
             "N"
         ]
-- 
2.43.0


From d99d4fa02c91a9d0914775e3c3a54f2f915333f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 09/26] fix: sed is parallelised only for scripts that look at
 one line at a time, wherever the script is given

---
 .../ParallelizabilityInfoGeneratorSed.py      | 71 ++++++++++++++++---
 1 file changed, 63 insertions(+), 8 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index 8ee05c2..15adf94 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -1,17 +1,72 @@
+from typing import List, Optional
+
 from pash_annotations.annotation_generation.annotation_generators.ParallelizabilityInfoGenerator_Interface import ParallelizabilityInfoGeneratorInterface
-from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import \
-    make_parallelizer_round_robin
-from pash_annotations.annotation_generation.datatypes.parallelizability.AggregatorSpec import \
-    make_aggregator_spec_adj_lines_func_from_string_representation
+from pash_annotations.datatypes.BasicDatatypes import Option
 
 
 class ParallelizabilityInfoGeneratorSed(ParallelizabilityInfoGeneratorInterface):
 
+    # Which ones do affect parallelizability?
+    # the script, in the first operand or in -e: line numbers, $, q, N, hold space, ... need more than one line
+    # -f: the script is not known; -i: edits files in place; -z: there are no lines; --debug: prints the script as well
+
     def generate_info(self) -> None:
-        # TODO: Logic copied from PaSh, but does this not depend how the script is given?
-        if  self.does_first_operand_start_with("-") \
-            or self.does_first_operand_start_with("s") \
-            or not (self.does_first_operand_contain("d") or self.does_first_operand_contain("q")):
+        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-i", "-z", "--debug"]):
+            pass    # no parallelization
+        elif all(self.is_script_line_wise(script) for script in self.get_scripts()):
             self.append_to_parallelizer_list_cc_seq_conc()
             self.append_to_parallelizer_list_rr_seq_conc()
 
+    def get_scripts(self) -> List[str]:
+        options_e = self.get_flag_option_list_filtered_with(["-e"])
+        if len(options_e) == 0:
+            return [self.get_first_operand_name_as_string()]
+        return [option.get_arg() for option in options_e if isinstance(option, Option)]
+
+    # a script is line-wise if each of its commands looks at the current line only; we recognise
+    # substitutions, transliterations, deletions and prints with at most a /REGEX/ as address
+    def is_script_line_wise(self, script: str) -> bool:
+        if '\n' in script:
+            return False
+        position: Optional[int] = self.skip_command(script, 0)
+        while position is not None and position < len(script):
+            if script[position] != ';':
+                return False
+            position = self.skip_command(script, position + 1)
+        return position is not None
+
+    def skip_command(self, script: str, position: int) -> Optional[int]:
+        while script[position:position + 1] == ' ':
+            position += 1
+        if script[position:position + 1] == '/':
+            end_address = self.skip_nonempty_regex(script, position + 1, '/')
+            if end_address is None:
+                return None
+            position = end_address
+        command: str = script[position:position + 1]
+        if command == 'd' or command == 'p':
+            return position + 1
+        delimiter: str = script[position + 1:position + 2]
+        if (command != 's' and command != 'y') or delimiter == '\\':
+            return None
+        end_regex = self.skip_nonempty_regex(script, position + 2, delimiter)
+        if end_regex is None:
+            return None
+        end = self.skip_until_after(script, end_regex, delimiter)
+        while command == 's' and end is not None and script[end:end + 1] != '' and script[end:end + 1] in 'gpiI0123456789':
+            end += 1
+        return end
+
+    # an empty regex stands for the last one used, maybe for another line
+    def skip_nonempty_regex(self, script: str, position: int, delimiter: str) -> Optional[int]:
+        if script[position:position + 1] == delimiter:
+            return None
+        return self.skip_until_after(script, position, delimiter)
+
+    def skip_until_after(self, script: str, position: int, delimiter: str) -> Optional[int]:
+        while position < len(script):
+            if script[position] == delimiter:
+                return position + 1
+            position += 2 if script[position] == '\\' else 1
+        return None
+
-- 
2.43.0


From 1963fb56b1f6ec6903cb46e09d4b70037993d274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 10/26] fix: grep with -A, -B, -C, -NUM, -m or -z is not
 offered concatenating parallelizers

---
 .../ParallelizabilityInfoGeneratorGrep.py                     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
index b8b9e4a..1b3b4ea 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
@@ -21,9 +21,11 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
     # and -A, -B, and -C but we do not parallelize within file boundaries since they require context
     # for -q, the input is not read further after some condition is met, so we do not parallelize at all
     # for -m, we only do IF
+    # -0, ..., -9 are short for -C; with -z, splitting at newlines may split what grep considers a line
 
     def generate_info(self) -> None:
-        if not self.does_flag_option_list_contain_at_least_one_of(["-q"]):
+        if not self.does_flag_option_list_contain_at_least_one_of(
+                ["-q", "-A", "-B", "-C", "-m", "-z", "-0", "-1", "-2", "-3", "-4", "-5", "-6", "-7", "-8", "-9"]):
             # # for indiv files
             # self.append_to_parallelizer_list_if_seq_conc()
             # rest for round-robin
-- 
2.43.0


From bdc2e4caea031534321989616d606b2a796027c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 11/26] fix: uniq -u, -z, --group and every --all-repeated mode
 are not offered adjacent-lines parallelizers

---
 .../ParallelizabilityInfoGeneratorUniq.py                   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py
index 87f6959..db9cc80 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py
@@ -16,11 +16,13 @@ class ParallelizabilityInfoGeneratorUniq(ParallelizabilityInfoGeneratorInterface
     # -d, -D and --all-repeated renders parallelization infeasible (at least very hard)
     # -c makes it harder but feasible:
     #   one needs to cut the prefix of numbers, run the sequential and see whether it is merged
-    # TODO: what does --group do?
+    # -u and --group look at whole groups of lines as well, also across chunks
 
     def generate_info(self) -> None:
         # check for flags/options that make it hard to parallelize
-        if not self.does_flag_option_list_contain_at_least_one_of(["-d", "-D", "--all-repeated"]):
+        if not self.does_flag_option_list_contain_at_least_one_of(
+                ["-d", "-D", "--all-repeated", "--all-repeated=prepend", "--all-repeated=separate", "-u",
+                 "--group", "--group=prepend", "--group=append", "--group=both", "-z"]):
             if self.does_flag_option_list_contain_at_least_one_of(["-c"]):
                 # we need a special merge
                 aggregator_spec = make_aggregator_spec_adj_lines_func_from_string_representation(cmd_inv_as_str='PLACEHOLDER:uniq_merge_count_uniq', is_implemented=False)
-- 
2.43.0


From 39610892756b5413321137ef9f0192916abd4803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:21 +0000
Subject: [PATCH 12/26] fix: sort with --sort random, a random key or --debug
 is not offered a merging parallelizer

---
 .../ParallelizabilityInfoGeneratorCustomSort.py           | 8 +++++++-
 .../ParallelizabilityInfoGeneratorSort.py                 | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
index b614186..d4ec003 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
@@ -13,7 +13,8 @@ class ParallelizabilityInfoGeneratorCustomSort(ParallelizabilityInfoGeneratorInt
     def generate_info(self) -> None:
         # copied from sort
         self.set_commutative()
-        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source", "--debug"]) \
+                or self.does_sort_option_ask_for_random_order():
             pass    # no parallelization
         else:
             # Build aggregator spec: keep certain flags with filtering and add -m
@@ -26,3 +27,8 @@ class ParallelizabilityInfoGeneratorCustomSort(ParallelizabilityInfoGeneratorInt
             # Build parallelizers and append
             parallelizer_cc_seq_cus = make_parallelizer_consec_chunks(aggregator_spec=aggregator_spec)
             self.append_to_parallelizer_list(parallelizer_cc_seq_cus)
+
+    # --sort random (or an abbreviation of it), or a key with the modifier R
+    def does_sort_option_ask_for_random_order(self) -> bool:
+        return any(option.get_arg().startswith("r") for option in self.get_flag_option_list_filtered_with(["--sort"])) \
+            or any("R" in option.get_arg() for option in self.get_flag_option_list_filtered_with(["-k"]))
diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
index c6eadf0..049890f 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
@@ -14,7 +14,8 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
 
     def generate_info(self) -> None:
         self.set_commutative()
-        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source", "--debug"]) \
+                or self.does_sort_option_ask_for_random_order():
             pass    # no parallelization
         else:
             # Build aggregator spec: keep certain flags with filtering and add -m
@@ -27,3 +28,8 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
             # Build parallelizers and append
             parallelizer_cc_seq_cus = make_parallelizer_consec_chunks(aggregator_spec=aggregator_spec)
             self.append_to_parallelizer_list(parallelizer_cc_seq_cus)
+
+    # --sort random (or an abbreviation of it), or a key with the modifier R
+    def does_sort_option_ask_for_random_order(self) -> bool:
+        return any(option.get_arg().startswith("r") for option in self.get_flag_option_list_filtered_with(["--sort"])) \
+            or any("R" in option.get_arg() for option in self.get_flag_option_list_filtered_with(["-k"]))
-- 
2.43.0


From 8b68fdc0edbf27dd2592b78952378aa5de49f59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:23 +0000
Subject: [PATCH 13/26] fix: sort is marked commutative only where it is
 offered a parallelizer

---
 .../ParallelizabilityInfoGeneratorCustomSort.py                 | 2 +-
 .../annotation_generators/ParallelizabilityInfoGeneratorSort.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
index d4ec003..4fd37c1 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
@@ -12,11 +12,11 @@ class ParallelizabilityInfoGeneratorCustomSort(ParallelizabilityInfoGeneratorInt
 
     def generate_info(self) -> None:
         # copied from sort
-        self.set_commutative()
         if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source", "--debug"]) \
                 or self.does_sort_option_ask_for_random_order():
             pass    # no parallelization
         else:
+            self.set_commutative()
             # Build aggregator spec: keep certain flags with filtering and add -m
             transformer_filter = TransformerFlagOptionListFilter(["-b", "-d", "-f", "-g", "-i", "-M", "-h", "-n", "-r", "--sort", "-V", "-k", "-t"])
             transformer_add = TransformerFlagOptionListAdd([Flag("-m")])
diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
index 049890f..4b5e785 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
@@ -13,11 +13,11 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
     # Which ones do affect parallelizability?
 
     def generate_info(self) -> None:
-        self.set_commutative()
         if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source", "--debug"]) \
                 or self.does_sort_option_ask_for_random_order():
             pass    # no parallelization
         else:
+            self.set_commutative()
             # Build aggregator spec: keep certain flags with filtering and add -m
             transformer_filter = TransformerFlagOptionListFilter(["-b", "-d", "-f", "-g", "-i", "-M", "-h", "-n", "-r", "--sort", "-V", "-k", "-t"])
             transformer_add = TransformerFlagOptionListAdd([Flag("-m")])
-- 
2.43.0


From 7d4c711f3aa80f19fd22e1457fa90e84d03bbbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:50 +0000
Subject: [PATCH 14/26] fix: asking for the inferred parallelizers does not add
 them to the stored list again

---
 .../annotation_generation/datatypes/ParallelizabilityInfo.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
index c329b81..217184e 100644
--- a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
+++ b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
@@ -29,7 +29,7 @@ class ParallelizabilityInfo:
 
     def get_inferred_parallelizer_list(self):
         # add round robin with unwrap parallelizer for commutative command
-        parallelizer_list = self.parallelizer_list
+        parallelizer_list = list(self.parallelizer_list)
         for parallelizer in self.parallelizer_list:
             if self.is_commutative and parallelizer.splitter.is_splitter_consec_chunks():
                 parallelizer_list.append(make_parallelizer_round_robin_with_unwrap_from_other(parallelizer))
-- 
2.43.0


From 95c60d8e08d6ffe7f3ac10a70482b155696125ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 15/26] fix: tr detects newlines at the start of a set, as
 escapes, in ranges and classes, and in the set they apply to

---
 .../ParallelizabilityInfoGeneratorTr.py       | 31 +++++++-------
 pash_annotations/datatypes/BasicDatatypes.py  | 41 +++++++++++++++++--
 2 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
index 562f815..9a82c12 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
@@ -23,12 +23,15 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
         # print("before res: ")
         # res = self.does_last_set_effectively_contain_newline()
         # print("res: " + res)
+        does_squeeze: bool = self.does_flag_option_list_contain_at_least_one_of(["-s"])
         does_delete_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-d"]) and \
-                                     self.does_last_set_effectively_contain_newline()  # only allowed to have a single set
-        # check for squeezing newlines
-        does_squeeze_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-s"]) and \
-                                      self.does_last_set_effectively_contain_newline()
-        if does_delete_newlines:
+                                     self.does_first_set_effectively_contain_newline()
+        # check for squeezing newlines, or what newlines are translated to
+        # if newlines are deleted, characters squeezed may come from different lines
+        does_squeeze_newlines: bool = does_squeeze and \
+                                      (self.does_first_set_effectively_contain_newline() or
+                                       self.does_last_set_effectively_contain_newline())
+        if does_delete_newlines and not does_squeeze:
             # for RR, we need an adjacent aggregator
             self.append_to_parallelizer_list_cc_seq_adjm()
             self.append_to_parallelizer_list_rr_seq_adjm()
@@ -41,14 +44,14 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
             self.append_to_parallelizer_list_cc_seq_conc()
             self.append_to_parallelizer_list_rr_seq_conc()
 
-    def does_last_set_effectively_contain_newline(self) -> bool:
-        last_operand: Operand = self.cmd_inv.operand_list[-1]
+    def does_first_set_effectively_contain_newline(self) -> bool:
         # is contained if (a) no -c and in set, or (b) -c and not in set
-        last_operand_contains_newline: bool = last_operand.contains_new_line()
-        last_operand_contains_null_char: bool = last_operand.contains_null_char()
-        if len(self.cmd_inv.operand_list) == 1 and self.does_flag_option_list_contain_at_least_one_of(["-c"]):
-            return not (last_operand_contains_newline or last_operand_contains_null_char)
-        else:  # '-c' (if existent) does not refer to the given set
-            return (last_operand_contains_newline or last_operand_contains_null_char)
-
+        first_operand: Operand = self.cmd_inv.operand_list[0]
+        return first_operand.contains_new_line() != self.does_flag_option_list_contain_at_least_one_of(["-c"])
 
+    def does_last_set_effectively_contain_newline(self) -> bool:
+        if len(self.cmd_inv.operand_list) == 1:
+            return self.does_first_set_effectively_contain_newline()
+        # '-c' (if existent) does not refer to the given set
+        last_operand: Operand = self.cmd_inv.operand_list[-1]
+        return last_operand.contains_new_line()
diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index e370463..bfb1e31 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -98,6 +98,22 @@ FlagOption = Union[Flag, Option]
 # Note difference between Option argument and Operand after parsing:
 # for option arguments, we know which is a filename; for operands, we don't
 
+# returns the (possibly escaped) character at the position, and the position after it
+def read_char_of_tr_set(set_as_string, position):
+    if set_as_string[position] != '\\' or position + 1 == len(set_as_string):
+        return set_as_string[position], position + 1
+    position += 1
+    end = position
+    while end < len(set_as_string) and end < position + 3 and set_as_string[end] in '01234567':
+        end += 1
+    if end == position + 3 and set_as_string[position] > '3':
+        end -= 1    # at most \\377
+    if end > position:
+        return chr(int(set_as_string[position:end], 8)), end
+    escaped = {'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v'}
+    return escaped.get(set_as_string[position], set_as_string[position]), position + 1
+
+
 class Operand(BaseClassForBasicDatatypes):
 
     def __init__(self, name: str) -> None:
@@ -109,13 +125,30 @@ class Operand(BaseClassForBasicDatatypes):
     def get_name(self) -> str:
         return self.name
 
+    # whether the string contains the character when interpreted as a set of tr, i.e., with escapes, ranges and classes
     def contains_new_line(self):
-        name_as_string = str(self.name)
-        return name_as_string.find(r"\n") > 0
+        return self.contains_char_as_tr_set('\n')
 
     def contains_null_char(self):
-        name_as_string = str(self.name)
-        return name_as_string.find(r"\0") > 0
+        return self.contains_char_as_tr_set('\0')
+
+    def contains_char_as_tr_set(self, char):
+        set_as_string = str(self.name)
+        position = 0
+        while position < len(set_as_string):
+            if set_as_string[position:position + 2] == '[:' and ':]' in set_as_string[position + 2:]:
+                end = set_as_string.index(':]', position + 2)
+                if set_as_string[position + 2:end] == 'cntrl' or (set_as_string[position + 2:end] == 'space' and char == '\n'):
+                    return True
+                position = end + 2
+                continue
+            first, position = read_char_of_tr_set(set_as_string, position)
+            last = first
+            if set_as_string[position:position + 1] == '-' and position + 1 < len(set_as_string):
+                last, position = read_char_of_tr_set(set_as_string, position + 1)
+            if first <= char <= last:
+                return True
+        return False
 
     def to_arg_string_type(self):
         return ArgStringType(self.name)
-- 
2.43.0


From 8d7af1b8c3c5f61bdeac8edb54c89dbe20ba58be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 16/26] fix: options with stream identifiers are compared by
 value

---
 pash_annotations/datatypes/BasicDatatypesWithIOVar.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
index fe85c1f..2d4c1d7 100644
--- a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
+++ b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
@@ -1,5 +1,6 @@
 from typing import Union
 from pash_annotations.datatypes.BasicDatatypes import ArgStringType
+from pash_annotations.util_standard import standard_eq, standard_repr
 
 IOVar = int
 
@@ -9,6 +10,12 @@ class OptionWithIOVar:
         self.option_name : str = name
         self.option_arg : Union[IOVar, ArgStringType] = option_arg
 
+    def __repr__(self) -> str:
+        return standard_repr(self)
+
+    def __eq__(self, other) -> bool:
+        return standard_eq(self, other)
+
     def get_name(self) -> str:
         return self.option_name
 
-- 
2.43.0


From b7e36566f0e8527d2ba9847e31fecce34fd84f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 17/26] fix: stream identifiers in option arguments are
 substituted, listed and removed, also for aggregators

---
 .../datatypes/parallelizability/AggregatorSpec.py          | 3 ++-
 pash_annotations/datatypes/CommandInvocationWithIOVars.py  | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
index f45e508..e9fd7c2 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
@@ -234,7 +234,8 @@ class AggregatorSpecFuncTransformer(AggregatorSpec):
         for input_id in inputs_from:
             assert not input_id in aggregator_cmd_inv.access_map and isinstance(input_id, IOVar)
             aggregator_cmd_inv.access_map[input_id] = make_stream_input()
-        aggregator_cmd_inv.replace_var(aggregator_cmd_inv.implicit_use_of_streaming_output, output_to)
+        aggregator_cmd_inv.implicit_use_of_streaming_output = output_to
+        aggregator_cmd_inv.access_map[output_to] = make_stream_output()
         return Aggregator.make_aggregator_from_cmd_inv_with_io(aggregator_cmd_inv, self.kind)
 
     def get_actual_2_ary_aggregator_with_aux(self,
diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index b18b7ea..3000a3d 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -116,9 +116,10 @@ class CommandInvocationWithIOVars:
         new_flag_option_list = []
         for i in range(len(self.flag_option_list)):
             flagoption = self.flag_option_list[i]
-            if isinstance(flagoption, OptionWithIO):
-                [new_option_arg] = function_to_apply(flagoption.option_arg)
-                new_flag_option_list.append(OptionWithIO(flagoption.option_name, new_option_arg))
+            if isinstance(flagoption, (OptionWithIO, OptionWithIOVar)):
+                # an option is dropped if its argument is
+                for new_option_arg in function_to_apply(flagoption.option_arg):
+                    new_flag_option_list.append(flagoption.__class__(flagoption.option_name, new_option_arg))
             else:
                 new_flag_option_list.append(flagoption)
         self.flag_option_list = new_flag_option_list
-- 
2.43.0


From 78f3b7e24e2529eba5c587deca54587661e10d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 18/26] fix: substituting, replacing and removing identifiers
 that occur several times or are exchanged

---
 .../datatypes/CommandInvocationWithIOVars.py  | 66 +++++++++++--------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index 3000a3d..da4ac6d 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -56,24 +56,30 @@ class CommandInvocationWithIOVars:
         self.substitute_outputs_in_cmd_invocation(outputs_to)
 
     def substitute_inputs_in_cmd_invocation(self, inputs_from):
-        def function_to_apply_to_vars(var):
-            if self.access_map[var].is_stream_input():
-                new_var = inputs_from.pop(0)
-                return self.replace_var_consistently(var, new_var)
-            else:
-                return var
-        self.map_var(function_to_apply_to_vars)
-        assert len(inputs_from) == 0
+        self.substitute_vars_with_access(lambda access: access.is_stream_input(), inputs_from)
 
     def substitute_outputs_in_cmd_invocation(self, outputs_to):
+        self.substitute_vars_with_access(lambda access: access.is_stream_output(), outputs_to)
+
+    # a variable may occur several times, and a new one may be among the ones substituted, so we change the access map at the end
+    def substitute_vars_with_access(self, is_access_to_substitute, new_vars):
+        remaining_new_vars = list(new_vars)
+        substituted = []
+        access_of_new_vars = dict()
         def function_to_apply_to_vars(var):
-            if self.access_map[var].is_stream_output():
-                new_var = outputs_to.pop(0)
-                return self.replace_var_consistently(var, new_var)
+            access = self.access_map[var]
+            if is_access_to_substitute(access):
+                new_var = remaining_new_vars.pop(0)
+                substituted.append(var)
+                access_of_new_vars[new_var] = access
+                return new_var
             else:
                 return var
         self.map_var(function_to_apply_to_vars)
-        assert len(outputs_to) == 0
+        for var in substituted:
+            self.access_map.pop(var, None)
+        self.access_map.update(access_of_new_vars)
+        assert len(remaining_new_vars) == 0
 
     def generate_inputs(self):
         streaming_inputs = []
@@ -103,14 +109,17 @@ class CommandInvocationWithIOVars:
         self.map_var(function_to_apply)
         return len(outputs) > 0
 
-    def replace_var_consistently(self, from_var, to_var):
-        assert(from_var in self.access_map) # if this is not true, something went wrong before
-        self.access_map[to_var] = self.access_map.pop(from_var)
-        return to_var
-
     def replace_var(self, from_var, to_var):
-        function_to_apply_to_var = lambda el: self.replace_var_consistently(from_var, to_var) if el == from_var else el
+        is_used = []
+        def function_to_apply_to_var(el):
+            if el == from_var:
+                is_used.append(el)
+                return to_var
+            return el
         self.map_var(function_to_apply_to_var)
+        if is_used:
+            assert(from_var in self.access_map) # if this is not true, something went wrong before
+            self.access_map[to_var] = self.access_map.pop(from_var)
 
     def flat_map_non_names_aux_flag_option_list(self, function_to_apply):
         new_flag_option_list = []
@@ -173,24 +182,23 @@ class CommandInvocationWithIOVars:
         return cmd_inv_with_io_vars
 
     def remove_streaming_inputs(self):
-        # TODO: check whether this removes options with streaming input
-        def function_to_apply(el):
-           if isinstance(el, int) and self.access_map[el].is_stream_input():
-               self.access_map.pop(el)
-               return []
-           else:
-               return [el]
-        self.flat_map_anything_non_names(function_to_apply)
+        self.remove_vars_with_access(lambda access: access.is_stream_input())
 
     def remove_streaming_outputs(self):
-        # TODO: check whether this removes options with streaming output
+        self.remove_vars_with_access(lambda access: access.is_stream_output())
+
+    # a variable may occur several times, so we change the access map at the end
+    def remove_vars_with_access(self, is_access_to_remove):
+        removed = []
         def function_to_apply(el):
-            if isinstance(el, int) and self.access_map[el].is_stream_output():
-                self.access_map.pop(el)
+            if isinstance(el, int) and is_access_to_remove(self.access_map[el]):
+                removed.append(el)
                 return []
             else:
                 return [el]
         self.flat_map_anything_non_names(function_to_apply)
+        for var in removed:
+            self.access_map.pop(var, None)
 
 
     # for test cases:
-- 
2.43.0


From 1f9aba8f8ce7abad1b18095a67f8f4ae08d4f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 19/26] fix: the command-line tool saves to new files and
 leaves existing ones alone, and imports the package

---
 pash_annotations/annotation_cli.py | 36 +++++++++++-------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index 1a57178..c6c717d 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -2,13 +2,13 @@ import argparse
 from typing import Optional
 
 # create parser
-from annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation, \
+from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation, \
     get_parallelizability_info_from_cmd_invocation
 
-from annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
-from annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
-from datatypes.CommandInvocationInitial import CommandInvocationInitial
-from parser.parser import parse
+from pash_annotations.annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
+from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
+from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
+from pash_annotations.parser.parser import parse
 
 parser = argparse.ArgumentParser()
 
@@ -22,25 +22,9 @@ parser.add_argument('--save_to', metavar='FILE', type=str, default=None,
 # parse the arguments
 options = parser.parse_args()
 
-script_path = __file__
-split_path = script_path.rpartition('/')
-script_prefix = "".join(split_path[:2])
-
 where_to_save = options.save_to
 cmd_invocation = options.command_invocation
 
-shall_we_write_to_file = False
-if where_to_save is not None:
-    shall_we_write_to_file = True
-    try:
-        text_file = open(script_prefix + where_to_save)
-        text_file.close()
-    except IOError:
-        shall_we_write_to_file = False
-    if not shall_we_write_to_file:
-        print("There exists a file on the provided path so the result will be output (only). ")
-
-
 result = ""
 result += ">>> READ COMMAND INVOCATION: \n" + cmd_invocation + "\n\n"
 
@@ -65,8 +49,14 @@ result += ">>> PARALLELIZABILITY INFORMATION: \n"
 # TODO: change representation when we move commutativity into parallelizers
 result += str(para_info)
 
-if shall_we_write_to_file:
-    text_file = open(script_prefix + where_to_save, "w+")
+text_file = None
+if where_to_save is not None:
+    try:
+        text_file = open(where_to_save, "x")
+    except FileExistsError:
+        print("There exists a file on the provided path so the result will be output (only). ")
+
+if text_file is not None:
     text_file.write(result)
     text_file.close()
 else:
-- 
2.43.0


From 761e873ff5d19879b9692b357baf04403d4b58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 20/26] fix: attached option arguments and options in
 one-letter groups are parsed, group letters get their primary name

---
 pash_annotations/parser/parser.py | 42 ++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index 1cc3a2e..ce53523 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -1,4 +1,4 @@
-from typing import Set, Literal, List, Dict
+from typing import Set, Literal, List, Dict, Optional, Tuple
 
 import shlex
 from pash_annotations.datatypes.BasicDatatypes import FlagOption, Flag, Option, Operand, FileName, ArgStringType
@@ -38,10 +38,15 @@ def parse(command) -> CommandInvocationInitial:
             option = Option(option_name_as_string, option_arg_as_string)
             flag_option_list.append(option)
             i += 1  # since we consumed another term for the argument
-        elif are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
-            for split_el in list(potential_flag_or_option[1:]):
-                flag: Flag = Flag(f'-{split_el}')
-                flag_option_list.append(flag)
+        elif (split_term := split_group_or_attached_arg(potential_flag_or_option, parsed_elements_list[i+1:],
+                                                        set_of_all_flags, set_of_all_options)) is not None:
+            names_and_args, num_consumed_terms = split_term
+            for name, arg in names_and_args:
+                if arg is None:
+                    flag_option_list.append(Flag(dict_flag_to_primary_repr.get(name, name)))
+                else:
+                    flag_option_list.append(Option(dict_option_to_primary_repr.get(name, name), arg))
+            i += num_consumed_terms
         else:
             break  # next one is Operand, and we keep these in separate list
         i += 1
@@ -115,10 +120,29 @@ def get_dict_option_to_primary_repr(json_data):
 #             dict_option_to_class_for_arg[option_name] = WhichClassForArg.ARGSTRING
 #     return dict_option_to_class_for_arg
 
-def are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
-    if potential_flag_or_option[0] != '-' or potential_flag_or_option == '-':
-        return False
-    return all(f'-{split_el}' in set_of_all_flags for split_el in list(potential_flag_or_option[1:]))
+def split_group_or_attached_arg(term: str, next_terms: List[str], set_of_all_flags, set_of_all_options) \
+        -> Optional[Tuple[List[Tuple[str, Optional[str]]], int]]:
+    """
+    splits --option=arg and groups of one-letter flags of which the last one may be an option with its argument
+    attached or in the next term; returns names with arguments (None for flags) and how many next terms are consumed
+    """
+    long_name, equal_sign, attached_arg = term.partition('=')
+    if equal_sign and long_name.startswith('--') and long_name in set_of_all_options:
+        return [(long_name, attached_arg)], 0
+    if term[0] != '-' or term == '-':
+        return None
+    names_and_args: List[Tuple[str, Optional[str]]] = []
+    for index in range(1, len(term)):
+        name, attached_arg = f'-{term[index]}', term[index+1:]
+        if name in set_of_all_options and attached_arg:
+            return names_and_args + [(name, attached_arg)], 0
+        elif name in set_of_all_flags:
+            names_and_args.append((name, None))
+        elif name in set_of_all_options and next_terms:
+            return names_and_args + [(name, next_terms[0])], 1
+        else:
+            return None
+    return names_and_args, 0
 #
 # class WhichClassForArg(Enum):
 #     FILENAME = 'filename'
-- 
2.43.0


From ab3689607a0711f5704a1b571dd206a25b8eb218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 21/26] fix: documented flags and options missing for mv, wc,
 diff and awk

---
 .../command_flag_option_info/data/awk.json    | 12 ++++++++
 .../command_flag_option_info/data/diff.json   | 28 +++++++++++++++++++
 .../command_flag_option_info/data/mv.json     |  6 ++++
 .../command_flag_option_info/data/wc.json     |  4 +++
 4 files changed, 50 insertions(+)

diff --git a/pash_annotations/parser/command_flag_option_info/data/awk.json b/pash_annotations/parser/command_flag_option_info/data/awk.json
index dbb159c..3b7ae1b 100644
--- a/pash_annotations/parser/command_flag_option_info/data/awk.json
+++ b/pash_annotations/parser/command_flag_option_info/data/awk.json
@@ -75,6 +75,18 @@
         [
             "-o",
             "--pretty-print"
+        ],
+        [
+            "-s",
+            "--no-optimize"
+        ],
+        [
+            "-I",
+            "--trace"
+        ],
+        [
+            "-k",
+            "--csv"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/diff.json b/pash_annotations/parser/command_flag_option_info/data/diff.json
index 34d6046..51a3db2 100644
--- a/pash_annotations/parser/command_flag_option_info/data/diff.json
+++ b/pash_annotations/parser/command_flag_option_info/data/diff.json
@@ -205,6 +205,34 @@
         [
             "--palette",
             "PALETTE"
+        ],
+        [
+            "--old-group-format",
+            "GFMT"
+        ],
+        [
+            "--new-group-format",
+            "GFMT"
+        ],
+        [
+            "--changed-group-format",
+            "GFMT"
+        ],
+        [
+            "--unchanged-group-format",
+            "GFMT"
+        ],
+        [
+            "--old-line-format",
+            "LFMT"
+        ],
+        [
+            "--new-line-format",
+            "LFMT"
+        ],
+        [
+            "--unchanged-line-format",
+            "LFMT"
         ]
     ]
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/mv.json b/pash_annotations/parser/command_flag_option_info/data/mv.json
index 068fe77..0cd6267 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mv.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mv.json
@@ -76,6 +76,12 @@
         ],
         [
             "--update=older"
+        ],
+        [
+            "--debug"
+        ],
+        [
+            "--no-copy"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/wc.json b/pash_annotations/parser/command_flag_option_info/data/wc.json
index b39fb51..174c602 100644
--- a/pash_annotations/parser/command_flag_option_info/data/wc.json
+++ b/pash_annotations/parser/command_flag_option_info/data/wc.json
@@ -31,6 +31,10 @@
         [
             "--files0-from",
             "GLOB"
+        ],
+        [
+            "--total",
+            "WHEN"
         ]
     ]
 }
-- 
2.43.0


From 3e44e738adfd8f0ce2294bb11edd2690177191b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 22/26] fix: cut has no flag -M

---
 pash_annotations/parser/command_flag_option_info/data/cut.json | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/cut.json b/pash_annotations/parser/command_flag_option_info/data/cut.json
index 51bbc37..690758e 100644
--- a/pash_annotations/parser/command_flag_option_info/data/cut.json
+++ b/pash_annotations/parser/command_flag_option_info/data/cut.json
@@ -19,9 +19,6 @@
         ],
         [
             "--version"
-        ],
-        [
-            "-M"
         ]
     ],
     "option": [
-- 
2.43.0


From 892703e490c92d916f330f8d74259b4a5deb43e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 23/26] fix: cat -vE and -vT are groups of two flags

---
 .../parser/command_flag_option_info/data/cat.json           | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/cat.json b/pash_annotations/parser/command_flag_option_info/data/cat.json
index 2dd06dc..a9ef37f 100644
--- a/pash_annotations/parser/command_flag_option_info/data/cat.json
+++ b/pash_annotations/parser/command_flag_option_info/data/cat.json
@@ -9,8 +9,7 @@
             "--number-nonblank"
         ],
         [
-            "-e",
-            "-vE"
+            "-e"
         ],
         [
             "-E",
@@ -25,8 +24,7 @@
             "--squeeze-blank"
         ],
         [
-            "-t",
-            "-vT"
+            "-t"
         ],
         [
             "-T",
-- 
2.43.0


From bccda5221eb40f2a001b6adf7fa4e8d7b6a86a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:26 +0000
Subject: [PATCH 24/26] fix: adding flags and options adds each missing one
 once, as documented

---
 .../datatypes/parallelizability/TransformerFlagOptionList.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/TransformerFlagOptionList.py b/pash_annotations/annotation_generation/datatypes/parallelizability/TransformerFlagOptionList.py
index 89f7d89..9343b58 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/TransformerFlagOptionList.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/TransformerFlagOptionList.py
@@ -5,7 +5,7 @@ from abc import ABC, abstractmethod
 
 from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
 from pash_annotations.util_standard import standard_repr, standard_eq
-from pash_annotations.util import foldl
+from pash_annotations.util import foldl, list_deduplication
 
 
 # We offer the following different transformers for flag option lists
@@ -72,7 +72,7 @@ class TransformerFlagOptionListAdd(TransformerFlagOptionList):
                                                            original_flag_option_list: List[Union[Flag, OptionWithIOVar]]) \
             -> List[Union[Flag, OptionWithIOVar]]:
         list_of_flagoptions_without_the_ones_in_original_one = [flagoption
-                                                                for flagoption in self.list_to_add
+                                                                for flagoption in list_deduplication(self.list_to_add)
                                                                 if flagoption not in original_flag_option_list]
         return original_flag_option_list + list_of_flagoptions_without_the_ones_in_original_one
 
-- 
2.43.0


From b6ad2c7e2706d27da9e422d25f15ab2e5501d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:27 +0000
Subject: [PATCH 25/26] fix: sort -c and -C write no result to standard output

---
 .../InputOutputInfoGeneratorCustomSort.py                      | 3 ++-
 .../annotation_generators/InputOutputInfoGeneratorSort.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorCustomSort.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorCustomSort.py
index 38ca559..57047de 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorCustomSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorCustomSort.py
@@ -5,7 +5,8 @@ class InputOutputInfoGeneratorCustomSort(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
         # copied from sort
-        if not self.does_flag_option_list_contain_at_least_one_of(["-o"]):
+        # -c and -C only check whether the input is sorted
+        if not self.does_flag_option_list_contain_at_least_one_of(["-o", "-c", "-C"]):
             self.set_implicit_use_of_stdout()
         if self.get_operand_list_length() == 0 and not self.does_flag_option_list_contain_at_least_one_of(["--files0-from"]):
             self.set_implicit_use_of_stdin()
diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSort.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSort.py
index 7d860c5..1e3c06f 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSort.py
@@ -7,7 +7,8 @@ class InputOutputInfoGeneratorSort(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
         # self.set_multiple_inputs_possible()
-        if not self.does_flag_option_list_contain_at_least_one_of(["-o"]):
+        # -c and -C only check whether the input is sorted
+        if not self.does_flag_option_list_contain_at_least_one_of(["-o", "-c", "-C"]):
             self.set_implicit_use_of_stdout()
         if self.get_operand_list_length() == 0 and not self.does_flag_option_list_contain_at_least_one_of(["--files0-from"]):
             self.set_implicit_use_of_stdin()
-- 
2.43.0


From 448e6409f294888c229c9a34cf3d0cd18ca818e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 26/26] fix: a command given by a path is not one with flag and
 option data, and names too long for a file have none

---
 pash_annotations/parser/util_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/parser/util_parser.py b/pash_annotations/parser/util_parser.py
index 4cfd818..12f81ef 100644
--- a/pash_annotations/parser/util_parser.py
+++ b/pash_annotations/parser/util_parser.py
@@ -6,8 +6,10 @@ def get_json_data(cmd_name):
     command_json_fn = f'{cmd_name}.json'
     # get man page data for command as dict
     try:
+        if '/' in cmd_name: # given by a path, so not one of the commands we have data for
+            raise FileNotFoundError(cmd_name)
         json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
-    except FileNotFoundError:
+    except OSError: # there is no such file, or the name is too long for one
         try:
             json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/_default_data_for_commands.json')
         except FileNotFoundError:
-- 
2.43.0

