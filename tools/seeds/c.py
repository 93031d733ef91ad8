G, Y, I = "pp/yugen.py", "pp/yup.py", "__init__.py"
BUGS = [
 dict(id="c10-quoted-once", property="C10", needs="a file imported by its quoted path twice in one source",
      breaks="the second import of a file by its path gives nothing",
      edits=[(G, "    if once and lib in yushell.source:", "    if lib in yushell.source and ( once or yushell.source[ lib ][ 0 ] != lib ):")],
      demo='expect(text("($import \\"a.yu\\")|($import \\"a.yu\\")|($import \\"b.yu\\")($import \\"b.yu\\")", "-d", "inc", files={"a.yu": "A", "inc/b.yu": "B"}), "A|A|BB")'),
 dict(id="c10-order", property="C10", needs="a file of one name next to the input file and in a directory given with -d",
      breaks="import directories take precedence over the directory of the input file",
      edits=[(G, "        yushell.directory.append( os.path.dirname( _input ))", "        yushell.directory.append( os.path.dirname( _input ))\n    elif config.directory:\n        yushell.directory.append( '' )"),
             (G, "    yushell.directory.extend( config.directory )", "    yushell.directory[ 0:0 ] = config.directory")],
      demo='''st, tree, out = run({"s/t.c.yu": "($import a)", "s/a.yu": "near", "inc/a.yu": "far"}, "-q", "-d", "inc", "s/t.c.yu")
expect(tree["s/t.c"].strip(), "near")'''),
 dict(id="c16-directory-alias", property="C16", needs="two files in different directories in one run, the second importing something that only the directory of the first one has",
      breaks="the directory of a file is searched for the imports of the following files of the run",
      edits=[(G, "    yushell.directory = []\n", "    yushell.directory = config.directory\n"),
             (G, "        yushell.directory.append( os.path.dirname( _input ))", "        yushell.directory.insert( 0, os.path.dirname( _input ))"),
             (G, "#   -- specified directories\n    yushell.directory.extend( config.directory )\n", "")],
      demo='''st, tree, out = run({"s/a.c.yu": "($import i)", "s/i.yu": "I", "t/b.c.yu": "($import i)"}, "-q", "s/a.c.yu", "t/b.c.yu")
expect((st, "t/b.c" in tree), (4, False))'''),
 dict(id="c25-failed-passage", property="C25", needs="a source of several passages that fails in a passage other than the last",
      breaks="after a passage that fails the remaining ones are processed, and only the last one decides about the status",
      edits=[(Y, "                if not _pp_file( path ):\n                    f_failed += 1\n                    break\n                if not feedback.repeat:\n                    break\n                config.passage += 1\n", "                ok = _pp_file( path )\n                if not feedback.repeat:\n                    break\n                config.passage += 1\n            f_failed += not ok\n")],
      demo='''st, tree, out = run({"a.c.yu": "($set n ($__PASSAGE__ (4 0 2)))($set __OUTPUT_FILE__ [e($n).txt])($div 8 ($n))"}, "-q", "a.c.yu", timeout=30)
expect((st, sorted(x for x in tree if x.startswith("e"))), (4, ["e4.txt"]))'''),
 dict(id="c14-dot-dir", property="C14", needs="a source NAME.yu in a directory with a dot in its name",
      breaks="NAME.yu is taken for a source of an output with an extension when a directory of its path has a dot in its name",
      edits=[(Y, "    if not os.path.splitext( fn_o )[ 1 ]:", "    if '.' not in fn_o.lstrip( './' ):")],
      demo='''st, tree, out = run({"D.x/a.yu": "x", "b.yu": "y", "c.h.yu": "z"}, "-q", "D.x/a.yu", "b.yu", "c.h.yu")
expect(("D.x/a.yugen" in tree, "D.x/a" in tree, "b.yugen" in tree, "c.h" in tree), (True, False, True, True))'''),
 dict(id="c14-module", property="C14", needs="a source whose extension is not one of yupp",
      breaks="the name of the module of a source without an extension .yu has the extension in it",
      edits=[(G, "    yushell.module = os.path.splitext( yushell.input_file )[ 0 ].replace( '-', '_' ).upper() if _input else 'UNTITLED'", "    yushell.module = yushell.input_file.rsplit( '.yu', 1 )[ 0 ].replace( '-', '_' ).upper() if _input else 'UNTITLED'")],
      demo='''st, tree, out = run({"x-y.c": "($__MODULE_NAME__)", "a.b.yu": "($__MODULE_NAME__)"}, "-q", "x-y.c", "a.b.yu")
expect((tree["x-y.yugen.c"].strip(), tree["a.b"].strip()), ("X_Y", "A.B"))'''),
 dict(id="c15-rename-fails", property="C15", needs="the renaming of the previous output to its backup fails",
      breaks="when the previous output cannot be renamed to the backup it is removed, and the previous text is lost",
      edits=[(Y, "        os.rename( fn, fn_bak )", "        try:\n            os.rename( fn, fn_bak )\n        except OSError:\n#           -- make room for the new file\n            os.remove( fn )")],
      demo='''CODE = """
import sys, os
sys.path.insert(0, %r)
import pp.yup as y
real = os.rename
def rename(a, b):
    if str(b).endswith('.bak'): raise OSError(28, 'No space left on device')
    return real(a, b)
os.rename = rename
sys.exit(y.cli(sys.argv[1:]))
""" % REPO
st, tree, out = run({"a.c.yu": "new", "a.c": "old"}, "-q", "a.c.yu", code=CODE)
expect("old" in (tree.get("a.c"), tree.get("a.c.bak")), True)'''),
 dict(id="c16-browse-files", property="C16", needs="two files processed with --pp-browse in one run",
      breaks="the list of sources of a browse map has the sources of the earlier files of the run too",
      edits=[(G, "    RESULT.clean()\n    feedback()\n", "    if not config.pp_browse:\n        RESULT.clean()\n    feedback()\n")],
      demo='''import json
st, tree, out = run({"a.c.yu": "x", "b.c.yu": "y"}, "-q", "--pp-browse", "a.c.yu", "b.c.yu")
expect(json.loads(tree["b.c.json"])["files"], ["b.c.yu"])'''),
 dict(id="c17-missing-dependency", property="C17", needs="a declared dependency that does not exist",
      breaks="a dependency that is missing does not make the output outdated",
      edits=[(Y, "            if all( _getmtime( d ) < t for d in deps ):", "            if all( _getmtime( d ) < t for d in deps if os.path.exists( d )):")],
      demo='''CODE = """
import sys, os, io
sys.path.insert(0, %r)
import pp.yup as y
os.utime('a.c', (2000, 2000)); os.utime('a.c.yu', (1000, 1000))
print('GOT', y.proc_stream(open('a.c.yu'), 'a.c.yu')[1].strip())
""" % REPO
st, tree, out = run({"a.c.yu": "new", "a.c": "old", "a.c.yuconfig": "dependency = ['gone.txt']"}, code=CODE)
expect("GOT new" in out, True)'''),
 dict(id="c17-dependency-list", property="C17", needs="declared dependencies older than the output and a source newer than it",
      breaks="with declared dependencies the time of the source itself is not looked at",
      edits=[(Y, "            deps = cfg.get( 'dependency', [])\n            deps.append( fn )\n", "            deps = cfg.get( 'dependency' ) or [ fn ]\n")],
      demo='''CODE = """
import sys, os, io
sys.path.insert(0, %r)
import pp.yup as y
os.utime('d.txt', (1000, 1000)); os.utime('a.c', (2000, 2000)); os.utime('a.c.yu', (3000, 3000))
print('GOT', y.proc_stream(open('a.c.yu'), 'a.c.yu')[1].strip())
""" % REPO
st, tree, out = run({"a.c.yu": "new", "a.c": "old", "d.txt": "", "a.c.yuconfig": "dependency = ['d.txt']"}, code=CODE)
expect("GOT new" in out, True)'''),
 dict(id="c18-global-lists", property="C18", needs="a list option in .yuconfig and a configuration script of the source itself",
      breaks="import directories, constants and dependencies of the common configuration script are lost when the source has a script of its own",
      edits=[(Y, "#   -- configuration for concrete source file\n", "#   -- configuration for concrete source file\n    if os.path.isfile( os.path.splitext( fn )[ 0 ] + E_YUCFG ):\n        context.update({ 'directory': [], 'dependency': [], 'pp_define': []})\n"),
             (Y, "    context[ 'directory' ] = []\n    context[ 'dependency' ] = []\n", "    context[ 'dependency' ] = []\n    context[ 'directory' ] = []\n")],
      demo='''CODE = """
import sys, os, io
sys.path.insert(0, %r)
import pp.yup as y
print('GOT', y.proc_stream(open('a.c.yu'), 'a.c.yu')[1].strip())
""" % REPO
st, tree, out = run({"a.c.yu": "($V)", ".yuconfig": "pp_define = ['V:5']", "a.c.yuconfig": "pp_reduce_emptiness = True"}, code=CODE)
expect("GOT 5" in out, True)'''),
 dict(id="c18-response-lines", property="C18", needs="a response file with its arguments on several lines",
      breaks="arguments of a response file are separated by spaces only",
      edits=[(Y, "                return argp.parse_args( f.read().split())", "                return argp.parse_args([ x for x in f.read().strip().split( ' ' ) if x ])")],
      demo='''st, tree, out = run({"a.c.yu": "x($V)", "r": "-q -D V:5\\na.c.yu\\n"}, "@r")
expect(tree.get("a.c", "").strip(), "x5")'''),
 dict(id="c20-kept-after-error", property="C20", needs="an evaluation that fails in the interactive loop, followed by another one",
      breaks="the text of an evaluation that failed is evaluated again with the lines after it",
      edits=[(Y, "                _pp_test( test, False )\n                test = ''\n", "                if _pp_test( test, False ):\n                    test = ''\n")],
      demo='''st, tree, out = run({}, "-q", stdin="($\\ntest\\nfine\\ntest\\nexit\\n")
expect("fine" in out and "OK" in out, True)'''),
 dict(id="c24-upper-python", property="C24", needs="a Python output whose extension is in upper case",
      breaks="an output X.PY is not taken for Python",
      edits=[(G, "    yushell.output_python = os.path.splitext( yushell.output_file )[ 1 ].lower() == E_PY", "    yushell.output_python = yushell.output_file.endswith( E_PY )")],
      demo=r"""Q = "'''"
st, tree, out = run({"a.PY.yu": "x = " + Q + "\na ($add 1 2)\n" + Q + "; y = ($add 1 2)"}, "-q", "a.PY.yu")
expect(tree["a.PY"].strip(), "x = " + Q + "\na ($add 1 2)\n" + Q + "; y = 3")"""),
 dict(id="c24-triple-quote", property="C24", needs="a string in triple double quotes with an apostrophe right after its opening quotes on the first line, over several lines",
      breaks="the end of a multi-line string is looked for by the quotes of its first line",
      edits=[(G, """            re_tail = ps_string_python.re_STR_3x1_TAIL if "'" in head else ps_string_python.re_STR_3x2_TAIL""", """            re_tail = ps_string_python.re_STR_3x1_TAIL if "'" in ln[ :p + 1 ] else ps_string_python.re_STR_3x2_TAIL""")],
      demo=r'''st, tree, out = run({"a.py.yu": 'x = """\'a ($add 1 2)\n"""; y = ($add 1 2)\n'}, "-q", "a.py.yu")
expect(tree.get("a.py"), 'x = """\'a ($add 1 2)\n"""; y = 3\n')'''),
 dict(id="c12-trailing", property="C12", needs="an error on a line that ends with spaces",
      breaks="the pointer of a diagnostic stands too far to the left when the line ends with spaces",
      edits=[(G, "    ln = lnlist[ -1 ].lstrip() if lnlist else '<not found>'", "    ln = lnlist[ -1 ].strip() if lnlist else '<not found>'")],
      demo='''st, tree, out = run({"a.c.yu": "x\\n  abc ($add 1 2 3)   \\n"}, "-q", "-b", "0", "a.c.yu")
l = out.split("\\n")
k = [i for i, x in enumerate(l) if x.strip() == "abc ($add 1 2 3)"]
expect(bool(k) and l[k[0] + 1].index("^") - l[k[0]].index("("), 1)'''),
 dict(id="c12-macro-decl", property="C12", needs="an error in the body of a macro that is called by another macro",
      breaks="of nested macros only the innermost call is shown in a diagnostic",
      edits=[(G, "            result += _loc( call.input_file, call.pos, False )\n", "            result += _loc( call.input_file, call.pos, False ) if not call.input_file.isdigit() else ''\n")],
      demo='''st, tree, out = run({"a.c.yu": "\\n($macro m () ($add 1))\\n\\n($macro k () ($m))\\n\\n($k)\\n"}, "-q", "-b", "0", "a.c.yu")
expect("line 6" in out and "line 4" in out, True)'''),
 dict(id="c19-shrink-eol", property="C19", needs="a Python source with an empty first line, whose expansion is decoded after the header",
      breaks="lines in tracebacks are off by one when the magic comment follows an empty line",
      edits=[(G, "    ln_count = 1 if eol else 2\n", "    ln_count = 2\n")],
      demo='''CODE = """
import sys, os, io
sys.path.insert(0, %r)
import pp.yup as y
print('GOT', y.proc_stream(open('a.py.yu'), 'a.py.yu')[3])
""" % REPO
st, tree, out = run({"a.py.yu": "\\n# coding: yupp\\nx = 1\\n"}, code=CODE)
expect("GOT 2" in out, True)
st, tree, out = run({"a.py.yu": "\\n# c\\n# coding: yupp\\nx = 1\\n"}, "-q", "a.py.yu")
expect("yupp" in tree["a.py"], True)'''),
 dict(id="c19-wrong-name", property="C19", needs="the name of an encoding that begins with yupp and has another dot later",
      breaks="names like yuppx.utf8 are taken for the encoding yupp",
      edits=[(I, "        if dot != len( __pp_name__ ):", "        if dot < len( __pp_name__ ):")],
      demo='''CODE = """
import sys, os, codecs
sys.path.insert(0, os.path.dirname(%r))
import importlib.util
s = importlib.util.spec_from_file_location('yupp', os.path.join(%r, '__init__.py'), submodule_search_locations=[%r])
m = importlib.util.module_from_spec(s); sys.modules['yupp'] = m; s.loader.exec_module(m)
try:
    codecs.lookup('yuppx.utf8'); print('FOUND')
except LookupError:
    print('NONE')
print(codecs.lookup('yupp.utf8').name)
""" % (REPO, REPO, REPO)
st, tree, out = run({}, code=CODE)
expect("NONE" in out and "yupp" in out, True)'''),
 dict(id="c02-semi-depth", property="C02", needs="a fragment in the form ,, that ends with the closing parenthesis while a list inside is open",
      breaks="a fragment ended by the closing mark of its application ends there also within parentheses",
      edits=[(G, "            if ( look[ :1 ] == ')' )  and ( leg.depth_pth == 0 ):", "            if ( look[ :1 ] == ')' ) and ( leg.depth_pth == 0 or look is not rest ):")],
      demo='expect(text("($set f \\\\x.[<($x)>])($f,,a (b \\\\f) c)"), "<a (b \\\\f) c>")'),
 dict(id="c01-block-comment", property="C01", needs="comments skipped, with a comment that is /*/ ... */",
      breaks="/*/ is taken for a whole comment",
      edits=[(G, "    elif sou[ :2 ] == '/*':\n        i = 2\n", "    elif sou[ :2 ] == '/*':\n        i = 1\n")],
      demo='expect(text("/*/ ($add 1 2) */($add 1 2)", "--pp-skip-comments", "1"), "/*/ ($add 1 2) */3")'),
 dict(id="c08-index-last", property="C08", needs="rindex of an item that occurs more than once",
      breaks="rindex gives the first place instead of the last one",
      edits=[(G, "    'rindex': lambda l, val : ( len( l ) - 1 ) - l[ ::-1 ].index( val ) if val in l else -1,", "    'rindex': lambda l, val : ( len( l ) - 1 ) - l[ ::-1 ].index( val ) if l.count( val ) == 1 else builtin[ 'index' ]( l, val ),")],
      demo='expect(text("($rindex (1 2 1) 1)($rindex (1 2) 2)($rindex (1) 5)"), "21-1")'),
 dict(id="c23-close-import", property="C23", needs="an import closed with its mark and spacing before the parenthesis",
      breaks="no spacing may follow the closing mark of an import",
      edits=[(G, "        ( sou, _ ) = ps_gap( sou[ l_IMPORT_T: ], depth + 1 )", "        sou = sou[ l_IMPORT_T: ]")],
      demo='expect(text("($import a \\\\import )", files={"a.yu": "A"}), "A")'),
]
