"""Writes /verif/properties.jsonl (one place to edit the texts)."""
import json, os
G, Y, L = "pp/yugen.py", "pp/yup.py", "lib/stdlib.yu"
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), obs=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(obs)}})


OUT = ["the output file of `yup.py FILE`", "exit status"]

prop("C01", "Text outside preprocessor constructs is reproduced unchanged",
     "Whatever stands in a source file outside preprocessor constructs - code, brackets, quotes, string literals, backslashes, non-ASCII letters, comments - reaches the output character for character and in order, apart from the documented spacing rules (C09); a file without any construct is reproduced, and a quotation yields exactly its text. "
     "Constructs are recognised everywhere in the text, also after unbalanced brackets of the host language, except inside the string and character literals of C, which are copied verbatim, and inside comments when skipping of comments of that language is switched on, where they are left as they are. "
     "A preprocessor comment and a definition leave nothing behind.",
     ["inputs", "configurations"], "every source text without or around constructs, every comment-skipping setting",
     "The tests sample a few hundred characters of plain text in ideal layouts; the quantifier is over all texts and their juxtaposition with constructs.",
     [G, Y], [("text and plain grammar, bracket depth", G + ": ps_text, ps_plain"), ("host comments", G + ": ps_remark_c, ps_remark_python"), ("evaluation of text", G + ": TEXT/PLAIN branches of yueval")], obs=OUT)
prop("C02", "All notations of a code fragment are equivalent",
     "The notations of a code fragment - [text], the reverse brackets ] EOL text EOL [, the double comma, the double semicolon and ($code text) - denote the same text whenever they enclose the same text, at every nesting depth, with brackets and parentheses inside the fragment balanced and with constructs inside expanded. "
     "What ends a fragment is the matching delimiter only: a delimiter of another notation, or one inside a nested pair, belongs to the text.",
     ["programs"], "every fragment text, notation and nesting of fragments in applications, definitions, lists and fragments",
     "Tests contain a handful of fragments; equivalence must hold for all contents and nestings.",
     [G], [("code notations", G + ": ps_code, ps_code_back, ps_code_comma, ps_code_paragraph and the bracket counting of ps_text/ps_plain")], obs=OUT)
prop("C03", "Lexical scoping of names",
     "A name means its innermost enclosing binding: a let binding, a parameter and a definition made inside a fragment or fragment-like body are visible only there and shadow outer ones, a definition at the top level holds from its place to the end of the source and of the source importing it, and redefinition takes effect from then on. "
     "A function keeps the meaning of the names of its definition place, whatever the names at the place of its application; a name that is nowhere bound stands for itself. "
     "Parameters left for late binding take their meaning at the place of use, as documented.",
     ["programs"], "every program of definitions, lets, functions, macros and uses, with every choice of colliding names",
     "Tests use mostly distinct names and shallow nesting; capture errors need particular collisions of names across nested scopes.",
     [G], [("environments", G + ": ENV, class BOUND/LATE_BOUNDED"), ("set/let/lambda evaluation", G + ": yueval branches SET, LET, LAMBDA, VAR, APPLY")], obs=OUT)
prop("C04", "Arguments are bound to parameters as written",
     "Applying a function binds positional arguments from left to right to the parameters not given by name, named arguments to the parameter of that name wherever they stand, defaults to the remaining parameters that have one, and everything left over to the list of variable arguments when the function takes one. "
     "Fewer arguments than parameters give a function of the rest that behaves, applied later, as if all had been given at once; an argument list embedded with * counts as its elements. "
     "An argument with no place - too many positional, or an unknown name - is reported or kept, never silently attached to another parameter.",
     ["programs"], "every signature (plain, default, late-bound, variable) and every arrangement of positional, named, embedded and partial arguments",
     "The combinations of parameter kinds and argument arrangements are far more than the few signatures tested.",
     [G], [("application of functions", G + ": yueval APPLY/LAMBDA branches, named arguments, defaults, __va_args__"), ("embedding", G + ": EMBED")], obs=OUT)
prop("C05", "Lists: loops, subscripts, destructuring and emission",
     "Applying a list to functions gives, for each element in order, the result of each function applied to it, concatenated; applying a number selects that argument, or that element of a single list argument, counting from the end when negative. "
     "Binding a list of names to a list gives each name its element and binding it to anything else gives every name that value; emission hands out one element per use and advances by the given step. "
     "Nested, embedded and empty lists keep their elements, their order and their number.",
     ["programs"], "every list value, nesting, index, loop body and sequence of emissions",
     "Tests loop over short flat lists; order, arity and boundary indices need enumeration.",
     [G], [("list and number application", G + ": yueval APPLY of LIST/INT"), ("multiple assignment", G + ": SET/LET with a list of names"), ("emit", G + ": EMIT")], obs=OUT)
prop("C06", "Conditionals choose one branch; recursion is well founded",
     "A conditional evaluates to its consequent exactly when its condition is not zero, an empty list, an empty fragment or an empty quotation, and otherwise to its alternative (nothing if there is none). "
     "The branch not chosen has no effect and cannot fail, so recursive functions guarded by a conditional terminate and give the value of the recursion equation.",
     ["programs"], "every condition value of every type, every nesting of conditionals, recursive definitions and depths",
     "Laziness shows only when the branch not taken would fail, loop or define something; truthiness must be right for all kinds of values.",
     [G], [("conditional", G + ": COND branch of yueval, ps_form"), ("truth of values", G + ": yueval truth test on INT, FLOAT, LIST, TEXT, STR")], obs=OUT)
prop("C07", "Macros and re-evaluated strings expand to what their text says",
     "A macro application is equivalent to writing the macro's body in its place with every parameter replaced by the text of its argument, evaluated in the scope of the application, including definitions it contains. "
     "A string application replaces each field by the positional or named argument it names and leaves the rest; a string evaluation ($$) is equivalent to writing the string's text in its place.",
     ["programs"], "every macro body, argument text, nesting of macros and strings with fields",
     "Tests have a few macros with simple arguments; substitution must commute with parsing for all bodies and arguments.",
     [G], [("macros", G + ": ps_macro, MACRO, evaluation of macro application and re-parsing"), ("string substitution and evaluation", G + ": SUBST/EVAL branches")], obs=OUT)
prop("C08", "Infix expressions and built-in functions compute the documented values",
     "An infix expression has the value of the Python expression it spells, with names and applications inside replaced by their values; a built-in function returns the documented value for all arguments of the documented kinds, with the quotes of a string counted as part of it where documented. "
     "An integer is printed in the base it was written in only when it has not been computed on, and quoted strings keep their quotes.",
     ["programs", "inputs"], "every built-in with every argument kind and boundary value, every operator tree",
     "Tests cover a few built-ins with single values; boundaries (negative slices, empty sequences, mixed kinds) are not reached.",
     [G], [("built-ins", G + ": builtin dictionary and its lambdas"), ("infix", G + ": ps_infix, INFIX branch of yueval, python eval environment")], obs=OUT)
prop("C09", "Indentation and whitespace of the output follow the documented rules",
     "With indentation trimming on, the lines produced by an application are shifted as a block to the indentation of the application, keeping their relative indentation; spacing and line end after a definition or preprocessor comment standing on its own are removed. "
     "With reduction of emptiness on, successive empty lines are reduced to one and the text starts and ends as documented; steady spaces and tabs survive. "
     "With an option off its rule does nothing, and neither rule ever changes anything but whitespace.",
     ["programs", "configurations"], "every layout of applications, bodies and definitions over spaces, tabs and line ends, for each combination of the two options",
     "Layout combinations (tabs, nested indents, empty results, consecutive definitions) are unbounded; tests fix a few.",
     [G], [("trimming", G + ": trim functions, _unfold/indent of applications"), ("reduction", G + ": reduce_emptiness, replace_steady")], obs=OUT)
prop("C10", "Imports take effect once in place, from the documented directories",
     "Importing a file is equivalent to writing its text in place of the import: its definitions hold afterwards and its text appears there. "
     "The file is looked for as named, then next to the input file, then in the import directories in the order given, then in the library, the first found is taken and a missing one is an error naming the place of the import. "
     "A file given by its quoted path is read at each import; a library given by a bare name (extension .yu) only at the first import of it in a translation; an expression in braces is replaced by its value, read as a source; "
     "a Python script (extension .py) gives its functions and the values of its names, read once; they take precedence over built-in functions and constants defined for the run and are not there for the next file. "
     "Chains and nested imports behave the same, and the search is not affected by earlier files of the run.",
     ["programs", "configurations", "histories"], "every import graph, directory layout with the same name in several places, and sequence of files",
     "Tests import only the library; precedence and repeated imports need several directories holding different files of one name.",
     [G, Y], [("import", G + ": ps_import, _import_source"), ("directories", Y + ": _pp_configure directory; " + G + ": yushell")], obs=OUT)
prop("C11", "A translation either yields the whole text or no output file",
     "For every source the output file is written exactly when the whole source has been translated to plain text, and it then holds all of it; otherwise neither the output nor its backup changes, the failure is reported and the file counts as failed in the exit status. "
     "A result that cannot be reduced to text is saved only under the .ast name and counts as a failure. "
     "This holds for sources that are malformed, undecodable, missing or whose output cannot be written, and the other files of the run are still processed.",
     ["inputs", "fault_sequences", "histories"], "every source text, malformed or not, every place of a failure in a run over several files, unreadable and unwritable files",
     "Tests check a few exceptions; that no failure of any kind leaves a partial or stale result is a statement over all failing inputs.",
     [Y, G], [("translation and saving", Y + ": _pp, _pp_stream, _pp_file, cli")], obs=["file tree after a run", "exit status", "error records"])
prop("C12", "A diagnostic points at the construct that is wrong",
     "Every error of a source is reported once, and when it concerns a construct it names the file (the imported one if it is there), the line counted from one, shows that line's text and marks the column; inside an expanded macro or evaluated string it also names that text and the place of the application. "
     "What is reported does not depend on text after the failing construct's evaluation or on earlier files.",
     ["inputs", "programs"], "every failing source: kind of error, position, file, nesting of imports and macros",
     "Positions are computed from the remaining source; only systematic variation of what precedes the error shows a shifted line or column.",
     [G], [("locations", G + ": SOURCE.loc, loc of nodes, error raising in ps_* and yueval")], obs=["error records of a run"])
prop("C13", "The browse map locates generated text and does not change it",
     "With browsing on, the output text is the same as without, and the map saved next to it lists the files that took part and relates pieces of the output to the place in the source they come from: offsets are ordered, lie in the output, and a piece copied from a source is found in that file at the mapped place (text that is computed is located at the place of its evaluation). "
     "The same means: apart from white space at the ends of lines and of the text. Without browsing no map is written.",
     ["programs", "configurations"], "every program, with text of several files, macros and trimming",
     "No test switches browsing on.",
     [G, Y], [("result with browse information", G + ": class RESULT and trim_with_browse"), ("saving", Y + ": _pp_stream json")], obs=["FILE.json written next to the output"])
prop("C14", "Names: of the output file, the module and the input",
     "The output file is named by the documented rule from the input name (NAME.EXT.yu and NAME.yu-EXT give NAME.EXT, anything else gets .yugen before its extension), placed in the output directory if one is given, unless the source sets the output name itself, which then is where the result goes. "
     "Names of the input, output and module seen by a program are those of the file being processed, whatever the directory, letter case or punctuation of its name.",
     ["inputs", "configurations"], "every input path (dots, directories, extensions, case, hyphens), with and without an output directory, and every assignment of the output name",
     "No test runs on files.",
     [Y, G], [("output name", Y + ": _output_fn, re_e_yu"), ("feedback of the output name", G + ": feedback.output_file, yueval of SET"), ("names", G + ": yuinit, __FILE__, __MODULE_NAME__")], obs=["file tree after a run"])
prop("C15", "The previous output survives until the new one is complete",
     "Regenerating an output keeps the previous version as its backup and replaces an older backup, the new output being read-only unless disabled, also when the old files are read-only. "
     "At whatever point a run is interrupted, or an operation on files fails, the output name holds the old text, the new text or nothing, never a part, and the old text is still there under the output or the backup name; running again gives the complete new output. "
     "No other file is touched.",
     ["crash_points", "fault_sequences", "histories"], "every history of regenerations and every point between or in file operations of a run, as a crash or as a failure",
     "Tests never write files; a crash between two system calls cannot be sampled by a unit test.",
     [Y], [("backup", Y + ": shell_backup"), ("saving", Y + ": shell_savetofile, _pp_stream")], obs=["file tree after an interrupted run"])
prop("C16", "Runs and files do not influence each other",
     "The result for a file depends on that file, the files it imports, the options and nothing else: not on the files before it in the run, on earlier runs in the same process, on failures among them, nor on hash seed or environment. "
     "The exit status is four times the number of failed files, 2 for a refused command line, and 0 otherwise, for every way of starting the tool.",
     ["histories", "configurations"], "every sequence of files and invocations in one process and every entry point",
     "The tests build a fresh state for each snippet, so state that leaks needs particular histories.",
     [G, Y, "__main__.py", "pp/__main__.py"], [("initial state", G + ": yushell, yuinit, global builtin"), ("status", Y + ": cli")], obs=["outputs of the same file in different histories", "exit status of the process"])
prop("C17", "An up-to-date output is reused, an outdated one never is",
     "Through the package interface an existing output is returned unchanged, and nothing is written, exactly when it is newer than the source and all declared dependencies and re-processing is not forced; otherwise the source is processed again. "
     "A dependency that is missing or as new as the output counts as outdated; whichever way was taken, name and text returned are those of the output file.",
     ["histories", "configurations"], "every history of edits, touches, removals and runs with every order of times, dependency lists and forcing",
     "No test calls the package interface.",
     [Y], [("freshness", Y + ": proc_stream, _getmtime")], obs=["result of translate(FILE)", "file tree"])
prop("C18", "Options take effect as given, in order of precedence, for one run only",
     "Every option has its documented effect, on the command line, in a response file or - through the package interface - in the global configuration script overridden by the script of the source file; what is not given has its default. "
     "Nothing of it carries over to the next run; an invalid command line is refused before anything is processed, and a failing configuration script is reported and does not stop the processing.",
     ["configurations", "histories"], "every combination of options and sources of options, and sequences of runs with different ones",
     "Tests run with defaults only.",
     [Y, "pp/yuconfig.py"], [("command line", Y + ": shell_parse_cli_arguments"), ("scripts", Y + ": shell_parse_yuconfig, _pp_configure")], obs=OUT)
prop("C19", "Python sources declared with the yupp encoding run as their expansion",
     "A Python source whose first or second line declares the encoding yupp or yupp.ENCODING is read as the text of its expansion, decoded by that encoding, utf-8 by default; any other encoding name is left alone and an ill-formed one is not found. "
     "The generated file keeps shebang and a plain coding comment and nothing of the declaration of yupp, and tracebacks name that file with lines corrected for the removed ones. "
     "If the expansion fails or is not valid Python, the source is executed as empty, with the error reported.",
     ["inputs", "configurations"], "every header form, encoding name and source text",
     "No test imports the package or registers the codec.",
     ["__init__.py", "pylib/yutraceback3.py", Y], [("codec", "__init__.py: yupp_search_function, decoder factories, decode_stream, read_header"), ("header", G + ": ps_header_python"), ("tracebacks", "pylib/yutraceback3.py: substitution")], obs=["output of python FILE", "generated file"])
prop("C20", "The interactive loop and text input evaluate what is entered",
     "In the interactive loop the lines entered since the last evaluation form one source, evaluated by the command test and printed with its status; evaluation starts fresh each time, errors do not end the loop, and exit or end of input does. "
     "Text given on the command line is evaluated and printed in the same way before anything else.",
     ["histories", "inputs"], "every sequence of entered lines and commands",
     "Tests never run the loop.",
     [Y], [("loop", Y + ": cli, shell_input, _pp_test, _pp_text")], obs=["standard output of the tool"])
prop("C21", "Standard library functions and macros do what their documentation says",
     "Every definition of the standard library - control functions, list functions, dictionaries, sets of structures, text helpers and the header library - has its documented result for all arguments, and importing the library adds no text. ",
     ["programs"], "every definition with every kind and number of arguments",
     "Tests use a few library macros once.",
     [L, "lib/hlib.yu", "lib/h.yu", "lib/h-light.yu"], [("library", L), ("headers", "lib/hlib.yu, lib/h.yu, lib/h-light.yu")], obs=OUT)
prop("C22", "Coroutine libraries generate the documented coroutines",
     "A coroutine written with the libraries for C (with or without the C macros) or Python behaves as its body cut into pieces: each call runs the code given for entering, goes on exactly where the coroutine stopped last - at a yield, a waiting, or a wait for another coroutine or semaphore not satisfied yet -, and stops at the next such place with the documented status, running the code given for leaving; persistent locals keep their values. Quitting and reaching the end are final, restarting begins anew, for all numbers and nestings of coroutines, loops and stops.",
     ["programs"], "every coroutine body: number and place of yields, locals, parameters, nested calls",
     "Tests do not use the library.",
     ["lib/corolib.yu", "lib/coroutine.yu", "lib/coroutine-h.yu", "lib/coroutine-py.yu"], [("library", "lib/corolib.yu, lib/coroutine.yu, lib/coroutine-h.yu, lib/coroutine-py.yu")], obs=OUT)
prop("C23", "Malformed constructs are refused, well-formed ones accepted",
     "A construct is accepted exactly if it is formed by the grammar of the language: a missing or wrong closing delimiter, name, parameter, expression or a text that ends inside a construct is refused whatever follows, and optional parts - spacing and line breaks between elements, closing marks - may be present or absent without changing the meaning. "
     "Reading never hangs or ends with anything but a result or a diagnostic.",
     ["inputs"], "every text over the tokens of the language, in particular every small change of a well-formed program",
     "The set of texts is unbounded and tests hold few negative examples.",
     [G], [("grammar", G + ": ps_* functions")], obs=OUT)
prop("C24", "Sources for Python output are read by Python's rules",
     "For an output that is a Python file, literals and comments are those of Python: constructs inside string literals are treated as in text and comment skipping applies to # comments, and a result is the same text as for other outputs otherwise; the magic comment is handled as documented and indentation is preserved.",
     ["inputs", "configurations"], "every source with an output name ending in .py, or .pyw as documented, and every comment-skipping setting",
     "Tests use Python mode in a few snippets only.",
     [G], [("python mode", G + ": yushell.output_python, ps_string_python, ps_remark_python, ps_header_python")], obs=OUT)
prop("C25", "Passages run in order until the source stops asking",
     "A source that asks to be repeated is processed again with the passage number one higher, starting with zero, and each passage is translated from scratch and written to the output it names; the repetition ends with the first passage that does not ask or fails. "
     "The next file and the next run start with passage zero.",
     ["histories", "programs"], "every program choosing outputs and repetition by passage, sequences of files",
     "Tests never run passages.",
     [Y, G], [("passages", Y + ": cli loop; " + G + ": feedback.repeat, __PASSAGE__")], obs=["file tree after a run"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
