"""Every small application data string of MC_Data: the second definitions, and the replay on the real code."""
import json
import os
import random
import shutil

import common
import table
from common import SEED, THOROUGH, dec, enc

# property: [(scope, pieces in quick runs, in thorough runs, only specified)]
SCOPES = {
    'C14': [('split', 4, 5, 6)],
    'C15': [('cond', 4, 5, 5)],
    'C16': [('vars', 4, 5, 5), ('funcs', 3, 4, 5), ('tails', 4, 5, 6)],
    'C25': [('balance', 4, 6, 6)],
}
LIMIT = 100000 if THOROUGH else 6000
PER_FILE = 200
SPLITS = [(44, False), (44, True), (63, True), (58, False)]


def specify(check, scope, size, printed=True):
    tmp = common.scratch()
    try:
        cfg = os.path.join(tmp, 'mc.cfg')
        with open(cfg, 'w') as fp:
            fp.write('CONSTANTS\n Scope = "{}"\n Size = {}\n Version = "v13"\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                     'INVARIANTS InvData {}\n'.format(scope, size, 'Printed' if printed else ''))
        out, st = common.tlc('MC_Data', cfg, workers=8, heap='8g', timeout=6000)
        common.require_clean(out, st)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check.count('states', st['states'])
    check.count('transitions', st['transitions'])
    return sorted(common.tagged(out, 'DATA'), key=lambda r: (len(r['txt']), r['txt']))


def small_data(check):
    done = {}
    classes = set(table.LINT[check.prop][0])
    for scope, quick, thorough, deep in SCOPES[check.prop]:
        records = specify(check, scope, thorough if THOROUGH else quick)
        if THOROUGH and deep > thorough:
            specify(check, scope, deep, False)
        done[scope] = len(records)
        if len(records) > LIMIT:
            records = random.Random('data-{}-{}'.format(scope, SEED)).sample(records, LIMIT)
        check.count('traces_validated_against_impl', len(records))
        check.count('evaluations', len(records))
        check.count('distinct_nontrivial', len(records))
        lines(check, scope, records, classes)
        calls(check, scope, records, classes)
    check.coverage['small_data'] = 'all strings of the scopes of MC_Data: {}'.format(done)


def report(check, scope, what, rec, got):
    check.violation('{} {!r}: {}'.format(scope, dec(rec['txt']), what), {'kind': 'data', 'expected': rec, 'observed': got})


def bag(ms, classes):
    return sorted(json.dumps([m[0], m[1]]) for m in ms if m[0] in classes)


def lines(check, scope, records, classes):
    """In the lines of a dialplan: what is said about each."""
    mine = {c for c in classes if not c.split('_')[2:3] == ['GOTO']}   # where a jump leads is of the whole dialplan
    jobs, parts = [], []
    todo = [(r, a) for r in records for a in r['apps']]
    for lo in range(0, len(todo), PER_FILE):
        part = todo[lo:lo + PER_FILE]
        text = [enc('[a]\n'), enc('exten => s,1,NoOp\n')] + [enc('exten => s,n,') + a['line'] + [10] for r, a in part]
        jobs.append({'id': len(jobs), 'kind': 'lint', 'ver': 'v13', 'odbc': [], 'files': [{'name': enc('e.conf'), 'lines': text}],
                     'runs': [{'mode': 'dialplan', 'root': enc('e.conf')}]})
        parts.append(part)
    results = common.run_jobs(jobs, timeout=60)
    for job, part in zip(jobs, parts):
        out = results[job['id']].get('out')
        if out is None:
            report(check, scope, 'the linter fails: {}'.format(results[job['id']].get('crash')), part[0][0], results[job['id']])
            continue
        said = {}
        for m in out['msgs']:
            said.setdefault(m['l'], []).append([m['c'], m['a']])
        for i, (r, a) in enumerate(part):
            exp, got = bag(a['ms'], mine), bag(said.get(i + 3, []), mine)
            if exp != got:
                report(check, scope, 'of {!r} is said {} and should be {}'.format(dec(a['line']), got, exp), r, said.get(i + 3))


def calls(check, scope, records, classes):
    """The splitter and the reference parser themselves, and the destinations; where they can be called."""
    jobs, parts = [], []
    for lo in range(0, len(records), PER_FILE):
        part = records[lo:lo + PER_FILE]
        if scope == 'split':
            part = [r for r in part if not r['err']]
            job = {'kind': 'split', 'items': [{'data': r['txt'], 'delim': d, 'remove': rm, 'parse': True} for r in part for d, rm in SPLITS]}
        elif scope in ('vars', 'funcs', 'tails'):
            job = {'kind': 'vars', 'lines': [r['txt'] for r in part]}
        else:
            job = {'kind': 'app', 'ver': 'v13', 'lines': [a['line'] for r in part for a in r['apps']]}
        jobs.append(dict(job, id=len(jobs)))
        parts.append(part)
    results = common.run_jobs(jobs, timeout=60)
    for job, part in zip(jobs, parts):
        out = results[job['id']].get('out')
        if out is None:
            report(check, scope, 'fails: {}'.format(results[job['id']].get('crash')), part[0], results[job['id']])
            continue
        if out.get('gone'):
            check.coverage['not_called'] = check.coverage.get('not_called', 0) + 1
            continue
        for i, r in enumerate(part):
            if scope == 'split':
                for k in range(4):
                    got = out['items'][i * 4 + k]
                    if isinstance(got, str) and 'argument' in got and 'TypeError' in got:
                        check.coverage['not_called'] = check.coverage.get('not_called', 0) + 1
                    elif got != r['parts'][k]:
                        report(check, scope, 'split at {!r}{} into {} and should be {}'.format(
                            chr(SPLITS[k][0]), ' and cleaned' if SPLITS[k][1] else '', got, r['parts'][k]), r, got)
            elif scope in ('vars', 'funcs', 'tails'):
                got = out['lines'][i]
                if 'crash' in got or got['err'] != r['err']:
                    report(check, scope, 'refused: {} and should be: {} {}'.format(got['err'], r['err'], got.get('crash', '')), r, got)
                elif not r['err'] and (got['text'] != r['text'] or got['toks'] != r['toks']):
                    report(check, scope, 'read as {!r} {} and should be {!r} {}'.format(
                        dec(got['text']), got['toks'], dec(r['text']), r['toks']), r, got)
            else:
                for k, a in enumerate(r['apps']):
                    got = out['lines'][i * len(r['apps']) + k]
                    if 'crash' in got or got['jumps'] != a['jumps']:
                        report(check, scope, '{!r} leads to {} and should to {} {}'.format(
                            dec(a['line']), [[dec(x) for x in j] for j in got['jumps']], [[dec(x) for x in j] for j in a['jumps']],
                            got.get('crash', '')), r, got)
