"""C22: requests and runs do not depend on each other, nor on hash seeds and directory order."""
import json
import os
import random
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

import cases
import commands
import common
import gen
from common import SEED, THOROUGH, dec, enc
from lintcases import case, show_case, split_lines

LINES = {'bad': 'exten => %d,1,Nosuch()', 'bg': 'exten => %d,1,Background(x)', 'BG': 'exten => %d,1,BackGround(x)',
         'plain': 'exten => %d,1,NoOp()', 'inc': '#include other.conf'}
HEAD = ['[general]', '', '[globals]', '', '[a]']


def specify(check, careful=True):
    tmp = common.scratch()
    try:
        cfg = os.path.join(tmp, 'mc.cfg')
        with open(cfg, 'w') as fp:
            fp.write('CONSTANTS\n Requests <- AllRequests\n MaxRequests = {}\n Careful = {}\nINIT Init\nNEXT Next\n'
                     'CHECK_DEADLOCK FALSE\nINVARIANTS Independent OwnMessages Printed\n'.format(
                         3 if THOROUGH else 2, 'TRUE' if careful else 'FALSE'))
        out, st = common.tlc('MC_Session', cfg, workers=6, timeout=3000)
        if not careful:
            if 'is violated' not in out:
                raise common.MachineryError('the careless service should break the invariants\n' + out[-2000:])
            return []
        common.require_clean(out, st)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check.count('states', st['states'])
    check.count('transitions', st['transitions'])
    return sorted(common.tagged(out, 'SESSION'), key=json.dumps)


def concrete(req):
    lines = HEAD + [LINES[e] % (100 + i) if '%' in LINES[e] else LINES[e] for i, e in enumerate(req['ev'])]
    return {'body': req['body'], 'text': enc('\n'.join(lines) + '\n')}


def replay_histories(check):
    hists = specify(check)
    if THOROUGH:
        specify(check, careful=False)
    rng = random.Random('c22-{}'.format(SEED))
    todo = hists if THOROUGH else rng.sample(hists, min(len(hists), 450))
    results = common.run_jobs([{'id': i, 'kind': 'web', 'requests': [concrete(r['req']) for r in h]} for i, h in enumerate(todo)])
    check.count('traces_validated_against_impl', len(todo))
    check.coverage['histories'] = len(hists)
    for i, h in enumerate(todo):
        res = results[i]
        if 'out' not in res:
            check.violation('no answer: {}'.format(json.dumps(res)[:300]), {'kind': 'web', 'history': h})
            continue
        for n, (r, a) in enumerate(zip(h, res['out']['answers'])):
            got = [[m[0] - len(HEAD), m[1]] for m in a['msgs']]
            if a['refused'] != r['refused'] or got != sorted(r['msgs']):
                check.violation('request {} of {}: answered {} and should be {}'.format(
                    n + 1, [x['req'] for x in h], a['error'] or got, 'refused' if r['refused'] else r['msgs']),
                    {'kind': 'web', 'history': h, 'observed': res['out']})
                break


# ---- random requests ----

def random_text(rng):
    r = rng.random()
    if r < .35:
        c = rng.choice([cases.g17, cases.g13, cases.g16, cases.g09])(rng)
    elif r < .9:
        c = rng.choice([cases.g04, cases.g05, cases.g06, cases.g07, cases.g08, cases.g10, cases.g11, cases.g14, cases.g15, cases.g25])(rng)
    else:
        c = cases.tree(rng, cases.dp_lines, 1, 1)
    data = b''.join(bytes(l) for l in c['files'][0]['lines'])
    return data.decode('utf-8', 'ignore').replace('\0', '')


def random_requests(check):
    """Histories of random requests, each judged as if it were the first."""
    rng = random.Random('c22r-{}'.format(SEED))
    pool = [random_text(rng) for _ in range(4000 if THOROUGH else 260)]
    hists = []
    for _ in range(3000 if THOROUGH else 160):
        h = []
        for _ in range(rng.randint(2, 6)):
            body = rng.choice(['ok'] * 12 + ['nofiles', 'notext', 'big', 'threads', 'nodict', 'other', 'surrogate'])
            text = rng.choice(pool)
            if body == 'surrogate':
                text = text[:len(text) // 2] + '\ud800' + text[len(text) // 2:]
            h.append({'body': body, 'text': enc(text)})
        hists.append(h)
    alone = [[{'body': 'ok', 'text': enc(t)}] for t in pool]
    jobs = alone + hists
    results = common.run_jobs([{'id': i, 'kind': 'web', 'requests': h} for i, h in enumerate(jobs)])
    check.count('traces_validated_against_impl', len(hists))
    check.count('evaluations', sum(len(h) for h in hists))
    check.count('distinct_nontrivial', len({json.dumps(h) for h in hists}))
    check.coverage['rule'] = 'random histories of 2 to 6 requests out of a pool, each distinct; the small histories of MC_Session; invocations'
    check.samples.append('\n=== next request\n'.join(dec(r['text']) for r in hists[0]))
    seen = {}
    obs = []
    where = []
    for i, h in enumerate(jobs):
        if 'out' not in results[i]:
            check.violation('no answer: {}'.format(json.dumps(results[i])[:300]), {'kind': 'web', 'history': h})
            continue
        for n, (r, a) in enumerate(zip(h, results[i]['out']['answers'])):
            if r['body'] != 'ok':
                if not a['refused']:
                    check.violation('request {} ({}) should have been refused'.format(n + 1, r['body']), {'kind': 'web', 'history': h})
                continue
            key = dec(r['text'])
            mine = (a['refused'], json.dumps(a['msgs']), a['error'])
            if key not in seen:
                seen[key] = mine
                obs.append({'id': len(obs), 'c': dict(case([('extensions.conf', key)])),
                            'obs': {'refused': a['refused'], 'msgs': [{'l': m[0], 'c': m[1]} for m in a['msgs']], 'cli': []}})
                where.append((key, a))
            elif seen[key] != mine:
                check.violation('request {} of {} is answered {} but alone {}'.format(n + 1, len(h), mine[1:], seen[key][1:]),
                                {'kind': 'web', 'history': h, 'observed': results[i]['out'], 'alone': seen[key]})
    tmp = common.scratch()
    try:
        path = os.path.join(tmp, 'in.json')
        with open(path, 'w') as fp:
            json.dump({'cases': obs}, fp)
        out, st = common.tlc('Trace_Session', env={'SESSION_INPUT': path}, workers=6)
        common.require_clean(out, st)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check.count('states', st['states'])
    check.count('transitions', st['transitions'])
    verdicts = {v['id']: v for v in common.tagged(out, 'VERDICT')}
    if len(verdicts) != len(obs):
        raise common.MachineryError('verdicts are missing\n' + out[-2000:])
    for i, v in sorted(verdicts.items()):
        if not v['ok']:
            key, a = where[i]
            got = [{'l': m[0], 'c': m[1]} for m in a['msgs']]
            check.violation('a request is answered {} and should be {}'.format(
                a['error'] or [m for m in got if m not in v['msgs']], 'refused' if v['refused'] else [m for m in v['msgs'] if m not in got]),
                {'kind': 'web', 'input': key, 'observed': a, 'expected': v})


# ---- the same invocation again ----

def again(check):
    """The commands under several hash seeds and directory orders: the same output, to the letter, and the one specified."""
    rng = random.Random('c22c-{}'.format(SEED))
    n = 600 if THOROUGH else 36
    seeds = ['0', '1', '4242', '77'] if THOROUGH else ['0', '1', '4242']
    cmds = ['dialplan-check', 'dialplan-show', 'modules-show', 'modules-show', 'ident-scan', 'ident-scan', 'func_odbc-check']
    todo = [commands.any_invocation(rng, cmds) for _ in range(n)]
    for i, (c, o) in enumerate(todo):
        if o['cmd'] == 'ident-scan':
            todo[i] = (commands.ident_case(rng), dict(o, distance=True, path=enc('./extensions.conf')))
        if o['cmd'] == 'modules-show' and rng.random() < .7:
            todo[i] = (cases.g_modules(rng), commands.invocation('modules-show', './extensions.conf'))
    top = common.scratch()
    try:
        pycache = os.path.join(top, 'pycache')

        def run(i, k):
            home = os.path.join(top, 'c{}-{}'.format(i, k))
            os.mkdir(home)
            if todo[i] is None:
                argv = ['ls']
            else:
                commands.write_files(home, todo[i][0]['files'])
                argv = commands.argv_of(todo[i][1])
            env = {'PATH': '/usr/bin:/bin', 'HOME': home, 'LANG': 'C.UTF-8', 'PYTHONUTF8': '1', 'PYTHONHASHSEED': seeds[k],
                   'PYTHONPYCACHEPREFIX': pycache, 'PYTHONPATH': commands.STUBS, 'LC_ALL': 'C.UTF-8'}
            try:
                proc = subprocess.run(['/usr/bin/python3', os.path.join(common.VERIF, 'harness', 'shuffled.py'), str(k * 7 + SEED),
                                       commands.PROGRAM] + argv, cwd=home, env=env, stdin=subprocess.DEVNULL,
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            except subprocess.TimeoutExpired:
                return None
            finally:
                shutil.rmtree(home)
            return proc.returncode, proc.stdout, proc.stderr
        todo.append(None)
        first = run(0, 0)
        with ThreadPoolExecutor(8) as pool:
            runs = list(pool.map(lambda p: run(*p), [(i, k) for i in range(len(todo)) for k in range(len(seeds))]))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    check.count('traces_validated_against_impl', len(runs))
    obs = []
    for i, item in enumerate(todo):
        mine = runs[i * len(seeds):(i + 1) * len(seeds)]
        what = 'ls' if item is None else ' '.join(commands.argv_of(item[1]))
        for k, r in enumerate(mine):
            if r != mine[0]:
                diff = [(a, b) for a, b in zip((mine[0] or (0, b'', b''))[1:], (r or (0, b'', b''))[1:]) if a != b][:1]
                check.violation('{}: the run with hash seed {} differs from that with {}: {}'.format(
                    what, seeds[k], seeds[0], [tuple(x.decode('utf-8', 'replace')[-300:] for x in d) for d in diff]),
                    {'kind': 'command', 'input': item and show_case(item[0]), 'argv': what})
                break
        if item is not None:
            obs.append(commands.observed(mine[0]))
    verdicts, st = commands.judge(todo[:-1], obs, ['out', 'status', 'err'])
    check.count('states', st['states'])
    check.count('transitions', st['transitions'])
    for i in sorted(verdicts):
        if not verdicts[i]['ok']:
            check.violation('invocation {} differs in {} {}'.format(' '.join(commands.argv_of(todo[i][1])), verdicts[i]['diffs'], obs[i]['crash']),
                            {'kind': 'command', 'input': show_case(todo[i][0]), 'observed': obs[i], 'expected': verdicts[i]})
