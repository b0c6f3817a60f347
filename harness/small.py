"""Every small input of MC_Lint: the invariants, and the replay on the real code."""
import json
import os
import random
import shutil

import commands
import common
import lintcases
import table
from common import SEED, THOROUGH, enc

FILES3 = ['e.conf', 'a.conf', 's/b.conf']
# property: [(scope, invariants, (lines, word length) replayed in quick and thorough runs, only specified, names of files, modes)]
CONF, READ, DP = ['conf'], ['reader'], ['dialplan']
SCOPES = {
    'C01': [('C01', 'Inv01 Inv06', (4, 0), (5, 0), (6, 0), FILES3, CONF), ('C01d', 'Inv01 Inv20', (4, 0), (5, 0), (6, 0), FILES3[:2], DP)],
    'C02': [('C02', 'Inv02', (3, 0), (4, 0), (5, 0), FILES3[:2], CONF), ('C02b', 'Inv02', (1, 3), (1, 4), (1, 5), FILES3[:1], READ)],
    'C03': [('C03', 'Inv03', (1, 5), (1, 6), (1, 7), FILES3[:1], READ), ('C03c', 'Inv03 Inv04', (1, 4), (1, 6), (1, 7), FILES3[:1], CONF)],
    'C04': [('C04', 'Inv04', (1, 4), (1, 5), None, FILES3[:1], CONF), ('C04b', 'Inv04 Inv01', (3, 0), (4, 0), (5, 0), FILES3[:1], CONF),
            ('C04d', 'Inv04', (1, 3), (1, 5), (1, 6), FILES3[:1], DP)],
    'C05': [('C05', 'Inv05', (5, 0), (6, 0), (7, 0), FILES3[:2], CONF)],
    'C06': [('C06', 'Inv06', (1, 0), (1, 0), (2, 0), FILES3[:2], CONF), ('C06b', 'Inv06 Inv01 Inv20', (4, 0), (5, 0), (6, 0), FILES3, CONF)],
    'C07': [('C07', 'Inv07', (3, 0), (4, 0), (5, 0), FILES3[:1], DP)],
    'C08': [('C08', 'Inv08', (4, 0), (4, 0), (6, 0), FILES3[:1], DP)],
    'C09': [('C09', 'Inv09 Inv07', (3, 0), (4, 0), (5, 0), FILES3[:1], DP)],
    'C10': [('C10', 'Inv10', (3, 0), (4, 0), (5, 0), FILES3[:1], DP)],
    'C12': [('C12', 'Inv13', (1, 3), (1, 5), None, FILES3[:1], DP)],
    'C13': [('C13', 'Inv13', (3, 0), (4, 0), (5, 0), FILES3[:1], DP), ('C13v', 'Inv13', (1, 3), (1, 5), (1, 6), FILES3[:1], DP)],
    'C17': [('C17', 'Inv17', (3, 0), (4, 0), (5, 0), FILES3[:1], DP)],
    'C18': [('C18', 'Inv18', (3, 0), (4, 0), (5, 0), FILES3[:1], ['odbc']), ('C18o', 'Inv18', (3, 0), (5, 0), (6, 0), FILES3[:1], ['odbc']),
            ('C18f', 'Inv20', (3, 0), (4, 0), (5, 0), FILES3[:2], ['odbc', 'dialplan'])],
    'C26': [('C26', 'Inv26', (3, 0), (4, 0), (5, 0), FILES3[:2], CONF), ('C26r', 'Inv26', (4, 0), (5, 0), (6, 0), FILES3[:1], READ),
            ('C26w', 'Inv26', (1, 4), (1, 6), None, FILES3[:1], READ), ('C26d', 'Inv26', (3, 0), (4, 0), (5, 0), FILES3[:1], DP)],
    'C20': [('C20', 'Inv20 Busy', (3, 0), (4, 0), (5, 0), FILES3[:2], DP)],
}
# what a whole command shows: scope, invariants, sizes, names of files, output, invocation
SHOWN = {
    'C17': ('C17m', 'Inv17m Inv17', (3, 0), (4, 0), FILES3[:1], 'modules', commands.invocation('modules-show', 'e.conf', '')),
    'C23': ('C23', 'Inv23', (3, 0), (4, 0), FILES3[:2], 'idents', commands.invocation('ident-scan', 'e.conf', verbose=True, distance=True)),
}
LIMIT = 150000 if THOROUGH else 4000     # runs replayed


def specify(check, scope, invariants, size, classes, outs, printed=True, temporal=''):
    tmp = common.scratch()
    try:
        cfg = os.path.join(tmp, 'mc.cfg')
        with open(cfg, 'w') as fp:
            fp.write('CONSTANTS\n Scope = "{}"\n Total = {}\n Word = {}\n Classes = {{{}}}\n Outs = {{{}}}\nSPECIFICATION Spec\n'
                     'CHECK_DEADLOCK FALSE\nINVARIANTS InputOk {} {}\n{}'.format(
                         scope, size[0], size[1], ', '.join('"%s"' % c for c in classes), ', '.join('"%s"' % o for o in outs),
                         invariants, 'Record' if printed else '', temporal))
        out, st = common.tlc('MC_Lint', cfg, workers=8, heap='8g', timeout=6000)
        common.require_clean(out, st)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check.count('states', st['states'])
    check.count('transitions', st['transitions'])
    return sorted(common.tagged(out, 'RUN'), key=lambda r: json.dumps(r['files']))


def small_inputs(check):
    classes, outs = table.LINT[check.prop][:2]
    if check.prop == 'C20':
        classes = ['*']
    outs = [o for o in outs if o != 'places']
    classes = classes + (['*'] if check.prop == 'C01' else [])
    done = {}
    for scope, invariants, quick, thorough, deep, names, modes in SCOPES[check.prop]:
        runs = specify(check, scope, invariants, thorough if THOROUGH else quick, classes, outs,
                       temporal='PROPERTY OnlyAdded\n' if check.prop == 'C20' else '')
        if THOROUGH and deep:
            specify(check, scope, invariants, deep, [], [], False)
        if THOROUGH and check.prop == 'C20':
            specify(check, scope, invariants, quick, [], [], False, 'PROPERTY Ends\n')
        done[scope] = len(runs)
        if len(runs) > LIMIT:
            runs = random.Random('small-{}-{}'.format(scope, SEED)).sample(runs, LIMIT)
        replay(check, scope, runs, names, modes, classes)
    check.coverage['small_scope'] = 'all inputs of the scopes of MC_Lint: {}'.format(done)


def small_commands(check):
    scope, invariants, quick, thorough, names, out, invocation = SHOWN[check.prop]
    runs = specify(check, scope, invariants, thorough if THOROUGH else quick, [], [out])
    check.coverage['small_commands'] = 'all inputs of {} of MC_Lint: {}'.format(scope, len(runs))
    limit = 30000 if THOROUGH else 2500
    if len(runs) > limit:
        runs = random.Random('shown-{}-{}'.format(scope, SEED)).sample(runs, limit)
    for kind in ('traces_validated_against_impl', 'evaluations', 'distinct_nontrivial'):
        check.count(kind, len(runs))
    todo = [({'files': [{'name': enc(n), 'lines': l} for n, l in zip(names, r['files'])]}, invocation) for r in runs]
    for (c, o), r, got in zip(todo, runs, commands.run_forked(todo)):
        lines, status = r['outs'][out]
        what = got['crash']
        if not what and got['out'] != lines:
            what = 'stdout ' + commands.first_difference(lines, got['out'])
        elif not what and got['status'] != status:
            what = 'status {} and should be {}'.format(got['status'], status)
        if what:
            case = dict(c, runs=[{'mode': 'dialplan', 'root': enc('e.conf')}], ver='v13', odbc=[])
            check.violation('{}: {}'.format(scope, what), {'kind': 'command', 'input': lintcases.show_case(case), 'argv': commands.argv_of(o),
                                                           'expected': r, 'observed': got})


def replay(check, scope, runs, names, modes, classes, chunk=20000):
    check.count('traces_validated_against_impl', len(runs))
    check.count('evaluations', len(runs))
    check.count('distinct_nontrivial', len(runs))
    for lo in range(0, len(runs), chunk):
        part = runs[lo:lo + chunk]
        cases = [{'files': [{'name': enc(n), 'lines': l} for n, l in zip(names, r['files'])],
                  'runs': [{'mode': m, 'root': enc(n)} for m, n in zip(modes, names)], 'ver': 'v13', 'odbc': [], 'vg': check.prop == 'C26'} for r in part]
        obs = lintcases.observe(cases)
        for c, r, o in zip(cases, part, obs):
            what = difference(r, o, classes)
            if what:
                check.violation('{}: {}'.format(scope, what), {'kind': 'lint', 'input': lintcases.show_case(c), 'case': c, 'expected': r, 'observed': o})


def bag(msgs, classes):
    return sorted(json.dumps([m['c'], m['f'], m['l'], m['a']]) for m in msgs if '*' in classes or m['c'] in classes)


def difference(r, o, classes):
    if o['crash']:
        return o['crash']
    exp, got = bag(r['msgs'], classes), bag(o['msgs'], classes)
    if exp != got:
        return 'missing {} and unexpected {}'.format(
            [named(m) for m in exp if m not in got or exp.count(m) > got.count(m)][:3],
            [named(m) for m in got if m not in exp or got.count(m) > exp.count(m)][:3])
    for out, val in (r['outs'] or {}).items():
        mine = {'read': lambda: o['read'], 'conf': lambda: o['conf'], 'ctxs': lambda: o['ctxs'],
                'prios': lambda: [[[x['raw'], x['prio'], x['f'], x['l']] for x in c['exts']] for c in o['ctxs']],
                'members': lambda: [[c['name'], c['incs'], [[x['f'], x['l']] for x in c['exts']]] for c in o['ctxs']],
                'general': lambda: [o['gsets'], o['vsets']], 'show': lambda: [o['show'], o['rshow']]}[out]()
        if mine != val:
            return '{} is {} and should be {}'.format(out, json.dumps(mine)[:300], json.dumps(val)[:300])
    return ''


def named(text):
    c, f, l, a = json.loads(text)
    return '{}:{} {} {!r}'.format(common.dec(f), l, c, common.dec(a))
