G, Y = "pp/yugen.py", "pp/yup.py"
BUGS = [
 dict(id="c04-default-first", property="C04", needs="a parameter with a default before one without, and more than one positional argument",
      breaks="positional arguments pass over a parameter that has a default as long as one without default is left",
      edits=[(G, "                        var = node.fn.env.unassigned()\n                        if var is NOT_FOUND:\n                            log.warn( 'unused", "                        var = node.fn.env.unassigned()\n                        if var in node.fn.default:\n                            var = next(( k for k in node.fn.env.order if isinstance( node.fn.env[ k ], BOUND ) and k not in node.fn.default and k != __va_args__ ), var )\n                        if var is NOT_FOUND:\n                            log.warn( 'unused")],
      demo='expect(text("($ \\\\a:7.\\\\b.[<($a)|($b)>] 1 2)"), "<1|2>")'),
]
