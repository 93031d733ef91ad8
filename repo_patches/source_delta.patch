From 52bf34cf267ed39f1fcb5ec0e489cf5db2a7664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 01/31] fix: report an end of source right after a nested
 construct as EOFError, not an unbound local

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 446cb7c..2444c99 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -995,7 +995,7 @@ def ps_text( sou, depth = 0 ):
 #   ---------------
     ast = []
     depth_pth_sq = depth_pth = 0
-    _plain_ret = ''
+    _plain_ret = None
     while True:
         trace__ps_( 'ps_text', sou, depth )
 #   ---- set
-- 
2.43.0


From 6fd12e94976618fc395e75a460fe64fe38e8b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 02/31] fix: the unique built-in does not remember the items of
 earlier calls

---
 pp/yugen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 2444c99..0abfd64 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2697,6 +2697,11 @@ def _print( s ):
     sys.stdout.write( s )
     sys.stdout.flush()
 
+#   ---------------------------------------------------------------------------
+def _unique( l ):
+    s = set()
+    return LIST( x for x in l if not ( x in s or s.add( x )))
+
 #   ---------------------------------------------------------------------------
 builtin = dict()
 builtin.update( vars( string ))
@@ -2780,7 +2785,7 @@ builtin.update({
     'sum': sum,
     'TAB': lambda : STEADY_TAB,
     'typeof': lambda val : ATOM( val.__class__.__name__ ),
-    'unique': lambda l, s=set() : LIST( x for x in l if not ( x in s or s.add( x ))),
+    'unique': _unique,
     'unq': _unq,
 })
 
-- 
2.43.0


From 9e380c0766c06a2fef4a8703d20d2e0ee7c1c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 03/31] fix: the atol built-in used a name that Python 3 does
 not have

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 0abfd64..69f05a0 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2725,7 +2725,7 @@ if 'lower' not in builtin:
         'rfind': lambda s, *args : s.rfind( *args ),
         'atof': lambda s : float( s ),
         'atoi': lambda s , base=10 : int( s, base ),
-        'atol': lambda s, base=10 : long( s, base ),
+        'atol': lambda s, base=10 : int( s, base ),
         'ljust': lambda s, width, *args : s.ljust( width, *args ),
         'rjust': lambda s, width, *args : s.rjust( width, *args ),
         'center': lambda s, width, *args : s.center( width, *args ),
-- 
2.43.0


From 5c8fce8fdc0df98be12665c9662ab48669cc4d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:23 +0000
Subject: [PATCH 04/31] fix: delete 'yupp.' where the magic comment declares
 the encoding, in any letter case

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 69f05a0..ebb8683 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1491,8 +1491,8 @@ def ps_header_python( sou, depth = 0 ):
                     return ( rest, header )
 
 #               -- delete 'yupp.' from a magic comment
-                i = leg.find( ps_CODING )
-                header.extend(( REMARK( leg[ :i ]), REMARK( leg[( i + l_CODING ): ])))
+                i = mch.start( 1 ) + 1
+                header.extend(( REMARK( leg[ :( i - l_CODING )]), REMARK( leg[ i: ])))
                 return ( rest, header )
 
 #           -- save shebang and goto the next line
-- 
2.43.0


From 94496c3b51bc6eeead2a136e164cf51b291da22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 05/31] fix: a Python source of nothing but the magic comment
 is an empty text

---
 pp/yugen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index ebb8683..c022038 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -955,6 +955,7 @@ def yuparse( input_file ):
             ( sou, header ) = ps_header_python( sou, 0 )
 
 #   ---- text
+        ast = TEXT([])
         text = ps_text( sou, 0 )
         while sou:
             ( sou, ast ) = next( text )
-- 
2.43.0


From 8fbc608af64526d267c4b0a3f6a5d55e5add4f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:34 +0000
Subject: [PATCH 06/31] fix: defined constants and imported Python scripts do
 not outlive the run of a file

---
 pp/yugen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index c022038..c083c8f 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2683,6 +2683,9 @@ def yushell( text, _input = None, _output = None ):
         yushell.pp_skip_comments = PP_SKIP_PYTHON_COMMENTS if yushell.output_python else PP_SKIP_C_COMMENTS
 #   -- the number of deleted lines at the beginning (Python)
     yushell.shrink = 0
+#   -- forget constants and imported scripts of previous runs
+    builtin.clear()
+    builtin.update( _builtin_initial )
     _update_builtin_from_config()
 
 #   ---------------------------------------------------------------------------
@@ -2790,6 +2793,8 @@ builtin.update({
     'unq': _unq,
 })
 
+_builtin_initial = dict( builtin )
+
 #   ---------------------------------------------------------------------------
 def _update_builtin_from_config():
     for x in config.pp_define:
-- 
2.43.0


From 68dca60f3a7b3e802229bfcf5f94f625ba7e03da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 07/31] fix: pass the exit status on when started as a module
 or a console script

---
 __main__.py    | 4 ++--
 pp/__main__.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/__main__.py b/__main__.py
index bb3893c..1850ffa 100644
--- a/__main__.py
+++ b/__main__.py
@@ -21,8 +21,8 @@ from .pp.yup import cli
 
 #   ---------------------------------------------------------------------------
 def main():
-    cli( sys.argv[ 1: ])
+    return cli( sys.argv[ 1: ])
 
 #   ---------------------------------------------------------------------------
 if __name__ == '__main__':
-    main()
+    sys.exit( main())
diff --git a/pp/__main__.py b/pp/__main__.py
index 5451dce..82903da 100644
--- a/pp/__main__.py
+++ b/pp/__main__.py
@@ -2,4 +2,4 @@ import sys
 from .yup import cli
 
 if __name__ == '__main__':
-    cli( sys.argv[ 1: ])
+    sys.exit( cli( sys.argv[ 1: ]))
-- 
2.43.0


From a3127f9a632c6c782d61987344856e72692ba5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 08/31] fix: a file that cannot be decoded or whose output
 cannot be written counts as failed

---
 pp/yup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index cd3f586..27b8366 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -426,9 +426,11 @@ def _pp_stream( _stream, fn, fn_o ):
                 shell_savetofile( fn_o, plain )
                 log.warn( 'result was saved as AST file' )
 
-    except IOError as e:
-#       -- e.g. file operation failure
+    except ( IOError, UnicodeError ) as e:
+#       -- e.g. file operation failure or text that cannot be decoded or encoded
         log.critical( FAIL, type( e ).__name__, str( e ))
+        ok = False
+        plain = None
 
     return ( ok, plain, fn_o )
 
-- 
2.43.0


From 4e4f6f93f9fcbdc0435d559097a196e1b5ef8993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 09/31] fix: the package interface returns the output file name
 set by the source

---
 pp/yup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index 27b8366..3569aa6 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -541,7 +541,7 @@ def proc_stream( _stream, fn ):
 #           -- process input file in the usual way
             pass
 
-    ok, data, _ = _pp_stream( _stream, fn, fn_o )
+    ok, data, fn_o = _pp_stream( _stream, fn, fn_o )
     return ( ok, data, fn_o, yushell.shrink )
 
 #   ---------------------------------------------------------------------------
-- 
2.43.0


From 64843328aba3d5159ca684f56791ea4aaccf694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 10/31] fix: a run does not start with the passage of an
 earlier one

---
 pp/yup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yup.py b/pp/yup.py
index 3569aa6..e14734e 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -250,6 +250,7 @@ def _pp_configure( cfg ):
     config.pp_define = cfg.get( 'pp_define', [])
     config.warn_unbound_application = cfg.get( 'warn_unbound_application', WARN_UNBOUND_APPLICATION )
     config.directory = cfg.get( 'directory', [])
+    config.passage = 0
     shell.quiet = cfg.get( 'quiet', QUIET )
     shell.type_output = cfg.get( 'type_output', TYPE_OUTPUT )
     shell.output_dir = cfg.get( 'output_dir', '' )
-- 
2.43.0


From 6c46a5ca15a2925390e55ff920b6386126dab69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 11/31] fix: an interrupted or failed write of the output does
 not leave a part of it or lose the previous one

---
 pp/yup.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index e14734e..4b034a4 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -74,6 +74,7 @@ E_YUCFG   = '.yuconfig'
 re_e_yu   = re.compile( r'\.yu(?:-([^.]+))?$', flags = re.IGNORECASE )
 E_BAK     = '.bak'
 E_AST     = '.ast'
+E_TMP     = '.tmp'
 
 QUIET_HELP = """
 do not show usual greeting and other information
@@ -218,6 +219,12 @@ def shell_input():
         print()
         return REPL_EXIT
 
+#   ---------------------------------------------------------------------------
+def shell_remove( fn ):
+    if os.path.isfile( fn ):
+        os.chmod( fn, stat.S_IWRITE )
+        os.remove( fn )
+
 #   ---------------------------------------------------------------------------
 def shell_backup( fn ):
     if os.path.isfile( fn ):
@@ -405,12 +412,15 @@ def _pp_stream( _stream, fn, fn_o ):
 #           -- check if the name of output file is changed
             if feedback.output_file:
                 fn_o = feedback.output_file
+#           -- output file writing, it gets its name when it is complete
+            fn_tmp = fn_o + E_TMP
+            shell_remove( fn_tmp )
+            shell_savetofile( fn_tmp, plain )
+            if shell.read_only:
+                os.chmod( fn_tmp, stat.S_IREAD )
 #           -- output file backup
             shell_backup( fn_o )
-#           -- output file writing
-            shell_savetofile( fn_o, plain )
-            if shell.read_only:
-                os.chmod( fn_o, stat.S_IREAD )
+            os.rename( fn_tmp, fn_o )
             if isinstance( plain, RESULT ):
 #               -- browse writing
                 with open( fn_o + '.json', mode='w', encoding='utf8' ) as f:
@@ -430,6 +440,7 @@ def _pp_stream( _stream, fn, fn_o ):
     except ( IOError, UnicodeError ) as e:
 #       -- e.g. file operation failure or text that cannot be decoded or encoded
         log.critical( FAIL, type( e ).__name__, str( e ))
+        shell_remove( fn_o + E_TMP )
         ok = False
         plain = None
 
-- 
2.43.0


From 13b657fcb6d4d98a2a5bdab1b2d29f123a12a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 12/31] fix: zfill of a number pads its digits

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index c083c8f..d7d1b26 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2733,7 +2733,7 @@ if 'lower' not in builtin:
         'ljust': lambda s, width, *args : s.ljust( width, *args ),
         'rjust': lambda s, width, *args : s.rjust( width, *args ),
         'center': lambda s, width, *args : s.center( width, *args ),
-        'zfill': lambda x, width : x.zfill( width ) if isinstance( x, str ) else repr( x ).zfill( width ),
+        'zfill': lambda x, width : x.zfill( width ) if isinstance( x, str ) else str( x ).zfill( width ),
         'expandtabs': lambda s, tabsize=8 : s.expandtabs( tabsize ),
         'translate': lambda s, table, deletions="" : s.translate( table, deletions ) if deletions or table is None else s.translate( table + s[ :0 ]),
         'capitalize': lambda s : s.capitalize(),
-- 
2.43.0


From 45969ddff45a5b3094fddd4fa77603e5c03fc2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 13/31] fix: modf returns a list

---
 pp/yugen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index d7d1b26..18cf651 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2770,6 +2770,7 @@ builtin.update({
     'islist': lambda l : isinstance( l, list ),
     'len': len,
     'list': lambda *l : LIST( l ),
+    'modf': lambda x : LIST( math.modf( x )),
     'not': operator.not_,
     'oct': oct,
     'or': operator.or_,
-- 
2.43.0


From a94cc00ff43cb8962f2ecc21e13930665fb44613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 14/31] fix: maketrans, repeat and deletions of translate work
 under Python 3

---
 pp/yugen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 18cf651..3af8f40 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2735,7 +2735,9 @@ if 'lower' not in builtin:
         'center': lambda s, width, *args : s.center( width, *args ),
         'zfill': lambda x, width : x.zfill( width ) if isinstance( x, str ) else str( x ).zfill( width ),
         'expandtabs': lambda s, tabsize=8 : s.expandtabs( tabsize ),
-        'translate': lambda s, table, deletions="" : s.translate( table, deletions ) if deletions or table is None else s.translate( table + s[ :0 ]),
+        'translate': lambda s, table, deletions="" : ''.join( c for c in s if c not in deletions ).translate( table ),
+        'maketrans': lambda x, y : ''.join( map( chr, range( 256 ))).translate( str.maketrans( x, y )),
+        'repeat': lambda seq, i : seq * i,
         'capitalize': lambda s : s.capitalize(),
         'replace': lambda s, old, new, maxreplace=-1 : s.replace( old, new, maxreplace )
     })
-- 
2.43.0


From 5b92335077132e3914567a1411f78317b3e06270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 15/31] fix: closing mark of emit without a function is
 accepted

---
 pp/yugen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 3af8f40..3c4898b 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1285,8 +1285,10 @@ def ps_emit( sou, depth = 0 ):
     var = leg
 #   ---- gap
     ( sou, _ ) = ps_gap( sou, depth + 1 )
-#   ---- { form }
-    ( sou, leg ) = ps_form( sou, depth + 1 )
+#   ---- { form }, not \emit )
+    leg = None
+    if not ( sou[ :l_EMIT_T ] == ps_EMIT_T and ps_gap( sou[ l_EMIT_T: ], depth + 1 )[ 0 ][ :1 ] == ')' ):
+        ( sou, leg ) = ps_form( sou, depth + 1 )
     if leg is not None:
 #   ---- gap
         ( sou, _ ) = ps_gap( sou, depth + 1 )
-- 
2.43.0


From d1038645294a279119ec1fe5913cf649c3aca023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 16/31] fix: a continued Python string ends with the quote it
 begins with

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 3c4898b..c098de3 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2129,7 +2129,7 @@ def ps_string_python( sou, depth = 0 ):
                 return ( sou[ p: ], STR( sou[ :p ]))
 
 #           -- tail on other line
-            re_tail = ps_string_python.re_STR_1x1_TAIL if "'" in head else ps_string_python.re_STR_1x2_TAIL
+            re_tail = ps_string_python.re_STR_1x1_TAIL if head.lstrip( 'uUrR' )[ :1 ] == "'" else ps_string_python.re_STR_1x2_TAIL
             _1x = True
     else:
         return ( sou, None )
-- 
2.43.0


From 73ce6d83fd5f0a2b5c86e81867b1bc32ed669ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 17/31] fix: the package interface does not use the output
 directory of an earlier run

---
 pp/yup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 4b034a4..58386e1 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -529,11 +529,11 @@ def proc_stream( _stream, fn ):
     """
 #   -- read shebang and magic comment again
     _stream.seek( 0 )
+    cfg = shell_parse_yuconfig( fn )
+    _pp_configure( cfg )
 #   -- figure out a name for output file
     fn_o = _output_fn( fn )
 
-    cfg = shell_parse_yuconfig( fn )
-    _pp_configure( cfg )
 #   -- check that we can skip re-preprocessing
     if not cfg.get( 'force', False ) and os.path.isfile( fn_o ):
         try:
-- 
2.43.0


From b6e2c693cb3a1dc30c911a81400cd2e3644e107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 18/31] fix: options of a run do not become the defaults of the
 next one in the same process

---
 pp/yup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 58386e1..eb15a0d 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -114,13 +114,13 @@ def shell_parse_cli_arguments( arglist ):
     )
     argp.add_argument( '--version', action = 'version', version = '%(app)s %(version)s' % { 'app': APP, 'version': VERSION })
     argp.add_argument( 'files', metavar = 'FILE', type = str, nargs = '*', help = "an input file" )
-    argp.add_argument( '-q', '--quiet', action = 'store_true', dest = 'quiet', default = shell.quiet
+    argp.add_argument( '-q', '--quiet', action = 'store_true', dest = 'quiet', default = QUIET
     , help = QUIET_HELP )
     argp.add_argument( '-d', action = 'append', metavar = 'DIR', dest = 'directory'
     , help = "an import directory" )
     argp.add_argument( '-o', '--output', metavar = 'DIR', dest = 'output_dir', default = ''
     , help = "an output directory" )
-    argp.add_argument( '--no-read-only', action = 'store_false', dest = 'read_only', default = shell.read_only
+    argp.add_argument( '--no-read-only', action = 'store_false', dest = 'read_only', default = READ_ONLY
     , help = READ_ONLY_HELP )
 #   -- preprocessor options
     argp.add_argument( '--pp-skip-comments', metavar = 'TYPE', type = int, dest = 'pp_skip_comments'
@@ -150,7 +150,7 @@ def shell_parse_cli_arguments( arglist ):
     argp.add_argument( '-b', '--traceback', metavar = 'TYPE', type = int, dest = 'traceback'
     , default = TRACEBACK, choices = list( range( 0, 3 ))
     , help = TRACEBACK_HELP )
-    argp.add_argument( '--type-file', action = 'store_true', dest = 'type_output', default = shell.type_output
+    argp.add_argument( '--type-file', action = 'store_true', dest = 'type_output', default = TYPE_OUTPUT
     , help = TYPE_OUTPUT_HELP )
     argp.add_argument( '-i', '--input', metavar = 'TEXT', type = str, dest = 'text', default = ''
     , help = "an input text (used by Web Console)" )
-- 
2.43.0


From 19dcfc78525971ae1c9db8db7b3bce76513c0d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 19/31] fix: browsing does not change the indentation when a
 text ends with spacing

---
 pp/yugen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index c098de3..d85610c 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2426,6 +2426,9 @@ class TRIM( BASE_OBJECT, CAPTION ):
 
         lnlist = plain.splitlines( True )
 
+#       -- spacing after the last line is not an indent
+        tail = len( lnlist.pop()) if not lnlist[ -1 ].strip( ' \t' ) else 0
+
 #       -- find shared indent, mark empty lines
         cutting = ''
         empty = set()
@@ -2484,6 +2487,9 @@ class TRIM( BASE_OBJECT, CAPTION ):
                         offset.append(( pos, total ))
                         pos += 1
             pos += len( ln )
+        if tail:
+#           -- removed spacing
+            offset.append(( pos, total + tail ))
 
 #       -- merge with previous offsets
         if plain.offset:
-- 
2.43.0


From ce93996b39e26d66b3c8e7cc05019b1cac60c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 20/31] fix: the browse map locates string and character
 literals

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index d85610c..857c4da 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2065,13 +2065,13 @@ def ps_quote( sou, depth = 0 ):
 #   ---- C string
         mch = re_STR.match( sou )
         if mch:
-            leg = mch.group( 0 )
+            leg = sou[ :mch.end()]
             return ( sou[ mch.end(): ], STR( leg ))
 
 #   ---- chr
         mch = re_CHR.match( sou )
         if mch:
-            leg = mch.group( 0 )
+            leg = sou[ :mch.end()]
             return ( sou[ mch.end(): ], STR( leg ))
 
 #   ---- (` | ($quote
-- 
2.43.0


From 69d64f7eeda6ac35492a5a2a97d53b463fe09768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 21/31] fix: errors of a source with yupp encoding are reported
 under Python 3 too

---
 pylib/yutraceback3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/yutraceback3.py b/pylib/yutraceback3.py
index ce98dd2..6fb6d9f 100644
--- a/pylib/yutraceback3.py
+++ b/pylib/yutraceback3.py
@@ -13,7 +13,7 @@ import linecache
 import sys
 
 import traceback
-from traceback import FrameSummary
+from traceback import FrameSummary, print_exc
 
 import os.path
 import functools
-- 
2.43.0


From df9bf1b5c8562f03224e9e05ee6014833aeec64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 22/31] fix: encoding yupp.ENCODING works under Python 3

---
 __init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/__init__.py b/__init__.py
index c5ccd7c..30974a8 100644
--- a/__init__.py
+++ b/__init__.py
@@ -21,7 +21,7 @@ from future import standard_library
 standard_library.install_aliases()
 
 import codecs
-from encodings import utf_8, search_function
+from encodings import search_function
 
 from .pp.yulic import VERSION, DESCRIPTION, HOLDER, EMAIL
 from .pp.yup import cli
@@ -111,12 +111,12 @@ def incremental_decoder_factory( basecodec ):
 def stream_decoder_factory( basecodec ):
 
 #   -----------------------------------
-    class StreamReader( basecodec.StreamReader ):
+    class StreamReader( basecodec.streamreader ):
 
         def __init__( self, *args, **kwargs ):
             from io import StringIO
 
-            basecodec.StreamReader.__init__( self, *args, **kwargs )
+            basecodec.streamreader.__init__( self, *args, **kwargs )
             self.stream = StringIO( decode_stream( self.stream.name, self.stream ))
 
     return StreamReader
@@ -144,15 +144,15 @@ def yupp_search_function( coding ):
             return None
 
 #       -- default encoding: UTF-8
-        basecodec = utf_8
+        basecodec = search_function( 'utf_8' )
 
     return codecs.CodecInfo(
         name=__pp_name__,
         encode=basecodec.encode,
         decode=decoder_factory( basecodec ),
-        incrementalencoder=basecodec.IncrementalEncoder,
+        incrementalencoder=basecodec.incrementalencoder,
         incrementaldecoder=incremental_decoder_factory( basecodec ),
-        streamwriter=basecodec.StreamWriter,
+        streamwriter=basecodec.streamwriter,
         streamreader=stream_decoder_factory( basecodec )
     )
 
-- 
2.43.0


From 62cc45c6279ad3f7b333c5378b10c3b3e1abdb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 23/31] fix: header of a source is found whatever its encoding
 and the form of the magic comment

---
 __init__.py | 6 ++++--
 pp/yup.py   | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/__init__.py b/__init__.py
index 30974a8..4109b7e 100644
--- a/__init__.py
+++ b/__init__.py
@@ -21,6 +21,7 @@ from future import standard_library
 standard_library.install_aliases()
 
 import codecs
+import io
 from encodings import search_function
 
 from .pp.yulic import VERSION, DESCRIPTION, HOLDER, EMAIL
@@ -42,9 +43,10 @@ def read_header( fn ):
     '''
     header = ''
     try:
-        with open( fn, 'r' ) as f:
+#       -- a magic comment is ASCII, whatever the encoding of the source file
+        with io.open( fn, 'r', encoding='latin-1', newline='' ) as f:
             header = f.readline()
-            if 'coding:' not in header:
+            if 'coding:' not in header and 'coding=' not in header:
                 header += f.readline()
     except:
         pass
diff --git a/pp/yup.py b/pp/yup.py
index eb15a0d..2dbf776 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -547,7 +547,8 @@ def proc_stream( _stream, fn ):
                     data = f.read()
 
                 # print( 'skipped yupp running' )
-                return ( True, data, fn_o, 1 if 'coding:' in _stream.readline() else 2 )
+                header = _stream.readline()
+                return ( True, data, fn_o, 1 if 'coding:' in header or 'coding=' in header else 2 )
 
         except:                                                                                                        #pylint: disable=bare-except
 #           -- process input file in the usual way
-- 
2.43.0


From d73197b47d2acc2430ec86362cc4bc0616155a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 24/31] fix: header of a source is not doubled when the entire
 source is decoded at once

---
 __init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/__init__.py b/__init__.py
index 4109b7e..bc8d2f4 100644
--- a/__init__.py
+++ b/__init__.py
@@ -53,7 +53,7 @@ def read_header( fn ):
     return header
 
 #   ---------------------------------------------------------------------------
-def decode_stream( fn, _stream ):
+def decode_stream( fn, _stream, whole=False ):
     from ast import parse
     from .pp.yup import proc_stream
     from .pylib import yutraceback
@@ -67,7 +67,7 @@ def decode_stream( fn, _stream ):
         return ''
 
 #   -- replace the filename of source file in traceback
-    yutraceback.substitution( fn, fn_o, shrink )
+    yutraceback.substitution( fn, fn_o, 1 if whole else shrink )
 #   -- check syntax of the preprocessed code
     try:
         parse( code, fn_o )
@@ -90,7 +90,10 @@ def decoder_factory( basecodec ):
 
         data, bytesencoded = basecodec.decode( input, errors )
         fn = argv[ 0 ]
-        return decode_stream( fn, StringIO( read_header( fn ) + data )), bytesencoded
+        header = read_header( fn )
+#       -- an interpreter can give the entire source as well as only what follows the header
+        whole = data.startswith( header )
+        return decode_stream( fn, StringIO( data if whole else header + data ), whole ), bytesencoded
 
     return decode
 
-- 
2.43.0


From c8ca6680a3ebba0198ad3ca79405f8b903ee0961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 25/31] fix: stream reader of yupp encoding works under Python
 3

---
 __init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/__init__.py b/__init__.py
index bc8d2f4..fd4cc95 100644
--- a/__init__.py
+++ b/__init__.py
@@ -119,10 +119,10 @@ def stream_decoder_factory( basecodec ):
     class StreamReader( basecodec.streamreader ):
 
         def __init__( self, *args, **kwargs ):
-            from io import StringIO
-
             basecodec.streamreader.__init__( self, *args, **kwargs )
-            self.stream = StringIO( decode_stream( self.stream.name, self.stream ))
+            data, _ = basecodec.decode( self.stream.read())
+            code = decode_stream( self.stream.name, io.StringIO( data ), True )
+            self.stream = io.BytesIO( basecodec.encode( code )[ 0 ])
 
     return StreamReader
 
-- 
2.43.0


From 2577781afc8a6073cff782b4c1810bc4875b4947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 26/31] fix: each coro-quit has a label of its own

---
 lib/coroutine.yu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/coroutine.yu b/lib/coroutine.yu
index be885d4..8aa2a86 100644
--- a/lib/coroutine.yu
+++ b/lib/coroutine.yu
@@ -102,6 +102,7 @@ enum {
 
 ($macro coro-quit ()($do ]
 	/* quit */
+	($set __label (L__($emit __label_iter inc)))
 	*co_p = &&($__label);
 
 	($__label):
-- 
2.43.0


From d83c071ebaacd631c7b171f40ca0d009d3fa86e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:09 +0000
Subject: [PATCH 27/31] fix: browse: cut the common part of indents made of
 tabs and spaces

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 857c4da..cbb1066 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2458,8 +2458,8 @@ class TRIM( BASE_OBJECT, CAPTION ):
 #               -- line less deeply indented
                 cutting = indent
             else:
-#               -- no common indent
-                cutting = None
+#               -- common part of the indents
+                cutting = os.path.commonprefix([ cutting, indent ]) or None
 
 #       -- remove shared indent, add specified indent
         c = len( cutting ) if cutting is not None else 0
-- 
2.43.0


From 63774adb19a5de06d3aca89a149f9117f6200398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:09 +0000
Subject: [PATCH 28/31] fix: isatom: wait for the value of a parameter

---
 pp/yugen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index cbb1066..4e4f42a 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3247,6 +3247,12 @@ def yueval( node, env = ENV(), depth = 0 ):
                                 raise TypeError( '%s: only one argument expected' % ( _callee())
                                 + node.fn.atom.loc())
 
+                            if ( isinstance( node.args[ 0 ], ( APPLY, COND_CLOSURE ))
+                            or isinstance( node.args[ 0 ], VAR )
+                            and env.lookup( node.args[ 0 ].reg, node.args[ 0 ].atom ) is not NOT_FOUND ):
+#                               -- irreducible
+                                return node
+
                             if isinstance( node.args[ 0 ], ATOM ) or isinstance( node.args[ 0 ], VAR ):
 #                               -- undefined or LATE_BOUND variable
                                 return 1
-- 
2.43.0


From e891c9af68728908b57fd5ea25c80e724270a6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:29 +0000
Subject: [PATCH 29/31] fix: reduce: wait for the values of parameters

---
 pp/yugen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 4e4f42a..f17832a 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3240,7 +3240,12 @@ def yueval( node, env = ENV(), depth = 0 ):
                                 + node.fn.atom.loc())
 
                             if _is_term( node.args[ 1: ]):
-                                return node.fn.fn( node.args[ 0 ].fn, *node.args[ 1: ])
+                                if not isinstance( node.args[ 0 ], ( VAR, APPLY )):
+                                    return node.fn.fn( node.args[ 0 ].fn, *node.args[ 1: ])
+
+                            elif isinstance( node.args[ 0 ], BUILTIN ) and not _detect_deadlock( node.args[ 1: ]):
+#                               -- irreducible
+                                return node
 
                         if node.fn.atom == 'isatom':
                             if len( node.args ) != 1:
-- 
2.43.0


From 9fabefbdb844f3e7f511e149948f1ac2dc098431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:29 +0000
Subject: [PATCH 30/31] fix: names of a script do not reach other imports and
 runs

---
 pp/yugen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index f17832a..e5f860d 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -900,6 +900,9 @@ def _import_python( name, script ):
             if os.path.isfile( lpath ):
                 break
     try:
+#       -- names of other modules and of previous imports are not involved
+        name = 'yupp_%s_%s' % ( name, lpath )
+        sys.modules.pop( name, None )
         mod = imp.load_source( name, str( lpath ))
         builtin.update( vars( mod ))
     except:
-- 
2.43.0


From 597e1dea98394de694967f11314b13255f02bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 31/31] fix: browse: keep the place of the text of a macro that
 is indented

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index e5f860d..0a6ff03 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -360,7 +360,7 @@ class PLAIN( BASE_STR ):
             ln = self.splitlines( True )
             if ord( self[ -1 ]) in ps_EOL:
                 ln.append( '' )
-            return PLAIN( indent.join( ln )
+            return PLAIN( SOURCE( indent.join( ln ), self.input_file, self.pos )
             , ( indent + self.indent ) if isinstance( self.indent, str ) else self.indent, self.trim )
 
         return self
-- 
2.43.0

