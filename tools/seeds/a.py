G, Y = "pp/yugen.py", "pp/yup.py"
BUGS = [
 dict(id="c05-shared-list", property="C05", needs="a list bound to a second name and consumed with ($emit) through the first one",
      breaks="a variable that holds a list of plain values is handed out without being copied, so taking elements from one name changes the list of the other",
      edits=[(G, "                return copy.deepcopy( val )\n\n#   ---- LAMBDA --> L_CLOSURE", "#               -- a terminal value has nothing to be evaluated in place\n                return val if _is_term( val ) else copy.deepcopy( val )\n\n#   ---- LAMBDA --> L_CLOSURE")],
      demo='expect(text("($set l (1 2 3))($set m l)($emit l)($emit l)|($m)"), "12|123")'),
 dict(id="c04-embedded-rest", property="C04", needs="an embedded list of more than one element followed by further arguments, bound to single parameters",
      breaks="the arguments after an embedded list are put before the rest of its elements",
      edits=[(G, "return ( arg.ast[ 0 ], arg.ast[ 1: ] + args[ 1: ])", "return ( arg.ast[ 0 ], args[ 1: ] + arg.ast[ 1: ] if isinstance( args[ 0 ], EMBED ) and isinstance( args[ 0 ].ast, APPLY ) else arg.ast[ 1: ] + args[ 1: ])")],
      demo='expect(text("($set f \\\\a.\\\\b.\\\\c.\\\\g.[($g *($a a) ($b) ($c))])($ \\\\k.\\\\h.\\\\q.[<($h)|($q)>] 1 2 3)"), "<2|3>")\nexpect(text("($set f \\\\l..\\\\g.($g))($ \\\\x.\\\\y.\\\\z.[<($x)|($y)|($z)>] *($ (1 2)) 3)"), "<1|2|3>")'),
 dict(id="c03-let-multi-outer", property="C03", needs="a binding of several names to a list shorter than the names, one of which is already bound outside",
      breaks="a name of a multiple binding that gets no value is left to the outer binding instead of shadowing it",
      edits=[(G, "                                log.warn( 'there is nothing to assign to \"%s\"' % ( str( var )) + node.loc())\n                                env_l[ var ] = None", "                                log.warn( 'there is nothing to assign to \"%s\"' % ( str( var )) + node.loc())\n                                if env.lookup( [], var ) is NOT_FOUND:\n                                    env_l[ var ] = None\n                                else:\n                                    del env_l[ var ]")],
      demo='expect(text("($set b 9)($let (a b) (1) [<($a)|($b)>])"), "<1|>")'),
 dict(id="c06-closure-condition", property="C06", needs="a conditional kept until a parameter of an enclosing function gets its value, with an empty string as the condition",
      breaks="in a conditional evaluated later, a condition that is a string counts as true even if empty",
      edits=[(G, "                node = yueval( node.leg_1 if node.cond else node.leg_0, env, depth + 1 )", "                node = yueval( node.leg_1 if node.cond or isinstance( node.cond, str ) else node.leg_0, env, depth + 1 )")],
      demo='expect(text("($set f \\\\x.($ 1 ? x | 2))($f (`))($f (`a))"), "21")'),
 dict(id="c07-macro-empty-list", property="C07", needs="a macro given an empty list for a parameter that stands inside an application",
      breaks="the text of an empty list put into a macro is nothing instead of ()",
      edits=[(G, "                    node.l_form = node.l_form.replace( '($' + str( var ) + ')', _plain_back( val ))", "                    node.l_form = node.l_form.replace( '($' + str( var ) + ')', _plain_back( val ) if val else _plain( val ))")],
      demo='expect(text("($macro m (p)($len ($p)))($m ())"), "0")\nexpect(text("($macro m (p)($set l ($p))($ (*l 1) \\\\x.[($x);]))($m ())"), "1;")'),
]
