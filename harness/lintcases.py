"""Running cases through the real linter and through Trace_Lint."""
import json
import os
import shutil

import common
from common import dec, enc


def split_lines(data):
    """Bytes to physical lines, terminators kept."""
    ret = []
    start = 0
    while start < len(data):
        end = data.find(b'\n', start)
        end = len(data) if end < 0 else end + 1
        ret.append(list(data[start:end]))
        start = end
    return ret


def mkfile(name, data):
    if isinstance(data, str):
        data = data.encode('utf-8')
    return {'name': enc(name), 'lines': split_lines(data)}


def case(files, runs=None, ver='v13', odbc=()):
    """files: [(name, bytes or str)]; the first one is the root."""
    return {
        'files': [mkfile(n, d) for n, d in files],
        'runs': [{'mode': m, 'root': enc(r)} for m, r in (
            runs or [('dialplan', files[0][0])])],
        'ver': ver,
        'odbc': [{'l': enc(n.lower()), 'n': enc(n)} for n in odbc]}


def observe(cases, repo=None, timeout=20):
    jobs = [dict(c, kind='lint', id=i) for i, c in enumerate(cases)]
    results = common.run_jobs(jobs, repo=repo, timeout=timeout)
    obs = []
    for i in range(len(cases)):
        res = results[i]
        if 'out' in res:
            o = dict(res['out'], crash='')
            o.pop('apps'), o.pop('funcs')
        else:
            o = {'crash': res.get('crash') or 'no answer in {} s'.format(res.get('timeout'))}
        obs.append(o)
    return obs


def judge(cases, obs, classes, outs, workers=6, chunk=4000):
    """Verdicts of the specification, one per case."""
    tmp = common.scratch()
    stats = {'states': 0, 'transitions': 0}
    verdicts = {}
    try:
        for lo in range(0, len(cases), chunk):
            path = os.path.join(tmp, 'in.json')
            with open(path, 'w') as fp:
                json.dump({'cases': [{'id': i, 'c': cases[i], 'obs': obs[i]}
                                     for i in range(lo, min(lo + chunk, len(cases)))],
                           'classes': list(classes), 'outs': list(outs)}, fp)
            out, st = common.tlc('Trace_Lint', env={'LINT_INPUT': path}, workers=workers)
            common.require_clean(out, st)
            for v in common.tagged(out, 'VERDICT'):
                verdicts[v['id']] = v
            stats['states'] += st['states']
            stats['transitions'] += st['transitions']
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if len(verdicts) != len(cases):
        raise common.MachineryError('{} verdicts for {} cases\n{}'.format(
            len(verdicts), len(cases), out[-3000:]))
    return verdicts, stats


def restated(check, cases, invariant):
    """The statements of Props, on these cases (no real code in this)."""
    tmp = common.scratch()
    try:
        path, cfg = os.path.join(tmp, 'in.json'), os.path.join(tmp, 'mc.cfg')
        with open(path, 'w') as fp:
            json.dump({'cases': [{'c': c} for c in cases]}, fp)
        with open(cfg, 'w') as fp:
            fp.write('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT {}\n'.format(invariant))
        out, stats = common.tlc('Trace_Props', cfg, env={'LINT_INPUT': path}, workers=8, timeout=3000)
        common.require_clean(out, stats)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check.count('states', stats['states'])
    check.count('transitions', stats['transitions'])
    check.coverage['restated'] = check.coverage.get('restated', 0) + len(cases)


def show_case(c):
    ret = []
    for f in c['files']:
        ret.append('--- {}\n{}'.format(
            dec(f['name']),
            b''.join(bytes(l) for l in f['lines']).decode('latin-1')))
    return '\n'.join(ret)


def show_msgs(msgs):
    return sorted('{}:{} {} {!r}'.format(dec(m['f']), m['l'], m['c'], dec(m['a'])) for m in msgs)


def conform(check, cases, classes, outs, repo=None, timeout=20):
    """Observe, judge and report the differences."""
    obs = observe(cases, repo, timeout)
    verdicts, stats = judge(cases, obs, classes, outs)
    check.count('states', stats['states'])
    check.count('transitions', stats['transitions'])
    check.count('traces_validated_against_impl', len(cases))
    for i in sorted(verdicts):
        v = verdicts[i]
        if v['ok']:
            continue
        what = 'case {}: differs in {}{}'.format(
            i, ' '.join(sorted(v['msgs'] + v['outs'])),
            ' ({})'.format(obs[i]['crash']) if obs[i].get('crash') else '')
        if v['msgs']:
            exp, got = show_msgs(v['exp']), show_msgs(v['got'])
            what += '; expected only: {}; got only: {}'.format(
                [m for m in exp if m not in got][:4], [m for m in got if m not in exp][:4])
            if exp != got and sorted(set(exp)) == sorted(set(got)):
                what += ' (other number of times)'
        check.violation(what, {'kind': 'lint', 'input': show_case(cases[i]), 'case': cases[i],
                               'observed': obs[i]})
    return verdicts
