#!/usr/bin/env python3
"""Are the invariants of MC_Lint worth anything?  Each of these changes of the
specification must break the named invariant in the named scope.  Not a check;
run by hand: specmut.py [text]"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
M = [   # file, old, new, scope, total, word, invariant
    ('Lint', 'If(old.data = <<>>, Msg(s4', 'If(old.data = <<>> /\\ old.comment = <<>>, Msg(s4', 'C26r', 3, 0, 'Inv26'),
    ('Lint', '!.comment = @ \\o d.comment]', '!.comment = @]', 'C26r', 3, 0, 'Inv26'),
    ('Lint', 'Emit([s4 EXCEPT !.held = <<>>, !.pend = <<new>>], old)', 'Emit([s4 EXCEPT !.held = <<new>>], old)', 'C26r', 4, 0, 'Inv26'),
    ('Lint', 'SelectSeq(s.conf, LAMBDA x: x.name # name)', 's.conf', 'C26', 3, 0, 'Inv26'),
    ('Lint', 'Append(SelectSeq(dp.ctxs, LAMBDA x: x.name # name), NewCtx(name, f, l))', 'Append(dp.ctxs, NewCtx(name, f, l))', 'C26d', 3, 0, 'Inv26'),
    ('Conf', 'c = 40 /\\ VgTop(stack) # 34', 'c = 40', 'C26w', 1, 4, 'Inv26'),
    ('Conf', 'c = 41 /\\ VgTop(stack) = 40', 'c = 41 /\\ stack # <<>>', 'C26w', 1, 4, 'Inv26'),
    ('Lint', 'Msg(s, "W_FILE_DOS_EOFCRLF", e.nm, e.ln', 'Msg(s, "W_FILE_DOS_EOFCRLF", e.nm, 1', 'C02', 3, 0, 'Inv02'),
    ('Lint', '!.ff[n].lf = r.lf, !.ff[n].ln = l]', '!.ff[n].ln = l]', 'C02', 3, 0, 'Inv02'),
    ('Lint', 'dos |-> r.crlf \\/ ~r.lf', 'dos |-> r.crlf', 'C02', 3, 0, 'Inv02'),
    ('Text', 'b = 237 THEN 159', 'b = 236 THEN 159', 'C02b', 1, 3, 'Inv02'),
    ('Conf', 'keep == {i \\in 1..Len(s) : ~(s[i] = 92', 'keep == {i \\in 1..Len(s) : ~(i > 1 /\\ s[i] = 92', 'C03', 1, 4, 'Inv03'),
    ('Conf', 'warn |-> j > 1 /\\ ~IsBlank(s[j-1])', 'warn |-> j > 1 /\\ ~IsWs(s[j-1]) /\\ s[j-1] # 59', 'C03', 1, 4, 'Inv03'),
    ('Conf', 'arrow /\\ sep # sArrow', 'arrow /\\ LStrip(sep) # LStrip(sArrow)', 'C04', 1, 4, 'Inv04'),
    ('Conf', 'Idx(data, 61)', 'LastIdx(data, 61)', 'C04', 1, 4, 'Inv04'),
    ('Lint', 'fr.lcv > 2', 'fr.lcv > 1', 'C05', 5, 0, 'Inv05'),
    ('Lint', 's.vs[n], i = 1)', 's.vs[n], TRUE)', 'C05', 4, 0, 'Inv05'),
    ('Lint', '!.blanks = <<>>, !.bof = FALSE', '!.blanks = <<>>', 'C05', 4, 0, 'Inv05'),
    ('Lint', 'NormPath(s.rd[i].nm) = norm', 's.rd[i].nm = path', 'C06b', 3, 0, 'Inv06'),
    ('Lint', 'PathJoin(DirName(f), rest)', 'PathJoin(DirName(cs.files[1].name), rest)', 'C06b', 3, 0, 'Inv06'),
    ('Lint', 'badorder,\n', 'badorder /\\ n < 2,\n', 'C07', 4, 0, 'Inv07'),
    ('Lint', '!.dp.ctxs[i].clp = FALSE,', '', 'C07', 4, 0, 'Inv07'),
    ('Lint', 'PatEq(exts[j].pt, pt)', 'exts[j].raw = raw', 'C09', 4, 0, 'Inv07'),
    ('Lint', 'Msg(s2, "E_DP_PRIO_DUPE"', 'Msg(s1, "E_DP_PRIO_DUPE"', 'C07', 4, 0, 'Inv07'),
    ('Lint', 'IF dp.gen # <<>>', 'IF dp.gen # <<>> /\\ dp.glob = <<>>', 'C08', 4, 0, 'Inv08'),
    ('Lint', '[Msg(s, "E_DP_GLOBALS_DUPE", f, l, PlaceText(dp.glob[1].f, dp.glob[1].l))\n             EXCEPT !.cur = [k |-> "drop"',
     '[Msg(s, "E_DP_GLOBALS_DUPE", f, l, PlaceText(dp.glob[1].f, dp.glob[1].l))\n             EXCEPT !.cur = [k |-> "glob"', 'C08', 4, 0, 'Inv08'),
    ('Lint', 'label == IF ldupe # {} THEN <<>> ELSE x.label', 'label == x.label', 'C09', 4, 0, 'Inv09'),
    ('Lint', 'equiv == {j \\in 1..n : exts[j].canon = canon}', 'equiv == {j \\in 1..n : exts[j].raw = raw}', 'C09', 4, 0, 'Inv09'),
    ('Lint', 'dupe == {j \\in equiv : exts[j].prio = prio}', 'dupe == {j \\in mine : exts[j].prio = prio}', 'C09', 4, 0, 'Inv09'),
    ('Observe', 'SelectSeq(exts, LAMBDA x: PatEq(x.pt, exts[order[i]].pt))', '<<exts[order[i]]>>', 'C10', 3, 0, 'Inv10'),
    ('Lint', 'IN IF next = seen THEN seen ELSE Reach(dp, next)', 'IN next', 'C13', 6, 0, 'Inv13'),
    ('Lint', 'j.int /\\ j.e # sI', 'j.e # sI', 'C13', 4, 0, 'Inv13'),
    ('Lint', '!.dp.labels = IF Truthy(label)', '!.dp.labels = IF FALSE', 'C13', 4, 0, 'Inv13'),
    ('Apps', 'name \\in BgSpellings THEN name', 'Lower(name) = S("background") THEN name', 'C17', 3, 0, 'Inv17'),
    ('Lint', '!.bg = w.bg, ', '', 'C17', 3, 0, 'Inv17'),
    ('Lint', 'pos < OdbcPos(sets[Len(sets)].var)', 'pos < OdbcPos(sets[1].var)', 'C18', 4, 0, 'Inv18'),
    ('Lint', '{"read", "write", "readsql", "writesql"} : OdbcHas', '{"read", "write", "readsql", "writesql", "insertsql"} : OdbcHas', 'C18o', 3, 0, 'Inv18'),
    ('Lint', 'IF p = <<>> THEN S("ODBC")', 'IF FALSE THEN S("ODBC")', 'C18', 4, 0, 'Inv18'),
    ('Lint', '\\/ StartRun \\/ PopFile', '\\/ StartRun', 'C01', 3, 0, 'Busy'),
    ('Apps', 'a.skip THEN [keep EXCEPT !.skip = FALSE]', 'a.skip THEN [a EXCEPT !.skip = FALSE]', 'split', 4, 0, 'InvData'),
    ('Apps', 'IF c < 0 THEN keep\n', 'IF c < 0 THEN [keep EXCEPT !.skip = FALSE]\n', 'split', 4, 0, 'InvData'),
    ('Apps', 'IF a.pa > 0 THEN a.pa - 1 ELSE 0', 'a.pa - 1', 'split', 4, 0, 'InvData'),
    ('Apps', 'a.br = 0 /\\ a.pa = 0', 'a.br + a.pa = 0 /\\ a.out # <<<<>>>>', 'split', 4, 0, 'InvData'),
    ('Apps', 'IF Len(args) > 2 THEN Say(w, "E_APP_ARG_MANY"', 'IF Len(args) > 3 THEN Say(w, "E_APP_ARG_MANY"', 'cond', 4, 0, 'InvData'),
    ('Apps', 'IF Len(acts) > 2 THEN 2', 'IF Len(acts) > 2 THEN 1', 'cond', 4, 0, 'InvData'),
    ('Apps', 'IF a > 0 /\\ cond0[a + 1] < 0 THEN From(c1, a + 1) ELSE c1', 'c1', 'cond', 4, 0, 'InvData'),
    ('Apps', 'SeparateArgs(args[2], 58, FALSE)', 'SeparateArgs(args[2], 58, TRUE)', 'cond', 4, 0, 'InvData'),
    ('VarFun', 'IF top = c THEN pop ELSE IF quoted THEN a ELSE push', 'IF top = c THEN pop ELSE push', 'balance', 4, 0, 'InvData'),
    ('VarFun', 'ELSE IF quoted THEN a\n     ELSE IF c \\in {40', 'ELSE IF c \\in {40', 'balance', 4, 0, 'InvData'),
    ('VarFun', 'IF top = 91 THEN pop', 'IF top \\in {91, 123} THEN pop', 'balance', 4, 0, 'InvData'),
    ('VarFun', 'IN r.ok /\\ r.st = <<>>', 'IN r.ok', 'balance', 4, 0, 'InvData'),
    ('VarFun', 'r.ok /\\ r.st', 'r.st', 'balance', 4, 0, 'InvData'),
    ('VarFun', 'IsIdent(name[i]) THEN w1', '(IsIdent(name[i]) \\/ name[i] = 45) THEN w1', 'vars', 3, 0, 'InvData'),
    ('VarFun', 'IF HasVar(toks) THEN w ELSE Count(w, toks)', 'Count(w, toks)', 'vars', 3, 0, 'InvData'),
    ('VarFun', 'IF data[j] = b THEN [a EXCEPT !.d = a.d + 1]', 'IF data[j] = b /\\ j > i THEN [a EXCEPT !.d = a.d + 1]', 'vars', 4, 0, 'InvData'),
    ('VarFun', 'func \\o <<40>> \\o args \\o <<41>>, start', 'func \\o <<40>> \\o args, start', 'funcs', 3, 0, 'InvData'),
    ('Commands', 'd <= 2 /\\ d + 1 < Len(a) /\\ d + 1 < Len(b)', 'd <= 2 /\\ d < Len(a) /\\ d < Len(b)', 'C23', 3, 0, 'Inv23'),
    ('Commands', 'd <= 2 /\\', 'd <= 3 /\\', 'C23', 3, 0, 'Inv23'),
    ('Commands', '~(IsArg(a) /\\ IsArg(b))', 'TRUE', 'C23', 3, 0, 'Inv23'),
    ('Commands', '~(d = 0 /\\ ((AllUp(a) /\\ AllLow(b)) \\/ (AllLow(a) /\\ AllUp(b))))', '~(d = 0)', 'C23', 3, 0, 'Inv23'),
    ('Commands', ' \\cup Neighbours(SortBy(q, LenThen))', '', 'C23', 3, 0, 'Inv23'),
    ('Commands', 'Cardinality({s.vars[i].f : i \\in uses})', 'Cardinality({1 : i \\in uses})', 'C23', 3, 0, 'Inv23'),
    ('Commands', 'NatDigits(Cardinality(uses))', 'NatDigits(Cardinality({s.vars[i] : i \\in uses}))', 'C23', 3, 0, 'Inv23'),
    ('Commands', ' \\ {S("<builtin>")})', ')', 'C17m', 3, 0, 'Inv17m'),
    ('Commands', '/\\ s.bg # <<>> THEN s.bg', '/\\ s.bg # <<>> THEN info.n', 'C17m', 3, 0, 'Inv17m'),
    ('Commands', '{"E_APP_MISSING", "E_FUNC_MISSING"} THEN 1', '{"E_APP_MISSING"} THEN 1', 'C17m', 3, 0, 'Inv17m'),
    ('Commands', 'IN IF Len(pre) + Len(item) > 52\n       THEN Append([a EXCEPT ![Len(a)] = pre], item)', 'IN IF Len(pre) + Len(item) > 12\n       THEN [a EXCEPT ![Len(a)] = item]', 'C17m', 3, 0, 'Inv17m'),
    ('Commands', 'e[Len(e)] = 95 /\\ StartsWith', 'StartsWith', 'mute', 3, 0, 'MuteRight'),
    ('Commands', 'e = cl \\/', 'e = cl \\/ Strip(e) = cl \\/', 'mute', 3, 0, 'MuteRight'),
    ('Commands', 'e # <<>> /\\ (e = cl', '(e = cl \\/ e = <<>>', 'mute', 3, 0, 'MuteRight'),
]
MODULE = dict(mute='MC_Mute', split='MC_Data', cond='MC_Data', vars='MC_Data', funcs='MC_Data', balance='MC_Data')


def main():
    for name, old, new, scope, total, word, inv in M:
        if len(sys.argv) > 1 and not {scope, inv} & set(sys.argv[1:]):
            continue
        tmp = tempfile.mkdtemp(prefix='specmut-')
        try:
            for f in os.listdir(SPEC):
                shutil.copy(os.path.join(SPEC, f), tmp)
            path = os.path.join(tmp, name + '.tla')
            text = open(path).read()
            if inv == 'Busy':
                path = os.path.join(tmp, 'MC_Lint.tla')
                text = open(path).read()
                old, new = '(PopFile \\/ LastHeld \\/ EndOfInput)', '(EndOfInput)'
            if old not in text:
                print("NOT FOUND", name, repr(old))
                continue
            open(path, 'w').write(text.replace(old, new))
            module = MODULE.get(scope, 'MC_Lint')
            cfg = 'CONSTANT Size = {}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS {}\n'.format(total, inv) if module == 'MC_Mute' else ('CONSTANTS\n Scope = "{}"\n Size = {}\n Version = "v13"\nINIT Init\nNEXT Next\n'
                   'CHECK_DEADLOCK FALSE\nINVARIANTS {}\n').format(scope, total, inv) if module == 'MC_Data' else ('CONSTANTS\n Scope = "{}"\n Total = {}\n Word = {}\n Classes = {{}}\n Outs = {{}}\nINIT Init\nNEXT Next\n'
                   'CHECK_DEADLOCK FALSE\nINVARIANTS {}\n').format(scope, total, word, inv)
            open(os.path.join(tmp, 'x.cfg'), 'w').write(cfg)
            out = subprocess.run(
                ['java', '-Djava.io.tmpdir=' + tmp, '-XX:+UseParallelGC', '-Xmx8g', '-Xss64m', '-cp', CP, 'tlc2.TLC', '-workers', '8',
                 '-metadir', tmp, '-noGenerateSpecTE', '-config', 'x.cfg', module + '.tla'],
                cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
            m = re.search(r'Invariant \w+ is violated|No error has been found|Error: .*', out)
            print('{} {}: {}   [{!r} -> {!r}]'.format(scope, inv, m and m.group(0), old[:60], new[:60]), flush=True)
        finally:
            shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
