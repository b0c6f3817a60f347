#!/usr/bin/env pypy3
"""Writes spec/Catalogue.tla from a reviewed tree (run by hand, output is committed).

The catalogue is frozen on purpose: the checks compare the code with this list,
so an application or function that gets lost, renamed or moved is noticed."""
import sys
sys.path.insert(0, '/repo')
from asterisklint.cls import Singleton
from asterisklint.version import AsteriskVersion
from asterisklint.application import AppLoader
from asterisklint.varfun import FuncLoader
SPA = {'Goto', 'GotoIf', 'Gosub', 'GosubIf', 'ExecIf', 'GotoIfTime', 'ExecIfTime', 'Set',
       'Milliwatt', 'Originate', 'VoiceMail', 'Background'}
SPF = {'AUDIOHOOK_INHERIT', 'INC', 'DEC', 'SET'}
out = []
for ver in ('v11', 'v13', 'vall'):
    Singleton._instances.clear()
    AsteriskVersion(ver)
    for kind, d in (('App', AppLoader()._lower_apps), ('Func', FuncLoader()._lower_funcs)):
        rows = []
        for l in sorted(d):
            o = d[l]
            assert o.name.lower() == l
            sp = o.name if o.name in (SPA if kind == 'App' else SPF) else 'plain'
            rows.append('<<"%s", "%s", "%s">>' % (o.name, o.module, sp))
        out.append('%sList_%s == <<\n  %s>>' % (kind, ver, ',\n  '.join(rows)))
print('''----------------------------- MODULE Catalogue -----------------------------
(* The applications and functions of each Asterisk version: name, module and
   the special argument check ("plain" if none).  Written by
   tools/mkcatalogue.py from the reviewed tree and frozen.                   *)
EXTENDS Text
''')
print('\n\n'.join(out))
print('''
(* [lower-case name -> [n: name, m: module, sp: special check]] *)
CatOf(list) == LET rows == {list[i] : i \\in 1..Len(list)}
                   low == {<<Lower(S(r[1])), r>> : r \\in rows}
               IN [l \\in {x[1] : x \\in low} |->
                     LET r == (CHOOSE x \\in low : x[1] = l)[2] IN [n |-> S(r[1]), m |-> r[2], sp |-> r[3]]]
AppCat_v11 == CatOf(AppList_v11)
AppCat_v13 == CatOf(AppList_v13)
AppCat_vall == CatOf(AppList_vall)
FuncCat_v11 == CatOf(FuncList_v11)
FuncCat_v13 == CatOf(FuncList_v13)
FuncCat_vall == CatOf(FuncList_vall)
AppCat == [v \\in {"v11", "v13", "vall"} |-> IF v = "v11" THEN AppCat_v11 ELSE IF v = "v13" THEN AppCat_v13 ELSE AppCat_vall]
FuncCat == [v \\in {"v11", "v13", "vall"} |-> IF v = "v11" THEN FuncCat_v11 ELSE IF v = "v13" THEN FuncCat_v13 ELSE FuncCat_vall]
=============================================================================''')
