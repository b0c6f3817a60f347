"""The commands of the program, against spec/Commands.tla."""
import json
import os
import random
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

import cases
import common
import gen
from cases import mix
from common import PYPY, SEED, THOROUGH, dec, enc
from lintcases import case, mkfile, show_case

STUBS = os.path.join(common.VERIF, 'harness', 'stubs')


def invocation(cmd, path='./extensions.conf', odbc=None, reverse=False, verbose=False, distance=False, ignore=''):
    """odbc: None (look for it), '' (off) or a path."""
    return {'cmd': cmd, 'path': enc(path), 'reverse': reverse, 'verbose': verbose, 'distance': distance,
            'ignore': enc(ignore),
            'odbc': {'k': 'auto'} if odbc is None else {'k': 'off'} if odbc == '' else {'k': 'path', 'p': enc(odbc)}}


def argv_of(o):
    argv = [o['cmd']]
    if o['reverse']:
        argv.append('--reverse')
    if o['verbose']:
        argv.append('-v')
    if o['odbc']['k'] != 'auto':
        argv += ['--func-odbc', dec(o['odbc'].get('p', ()))]
    path = dec(o['path'])
    default = './func_odbc.conf' if o['cmd'] == 'func_odbc-check' else './extensions.conf'
    return argv + ([] if path == default else [path])


def lines_of(codes):
    """Lines that end in a line feed; what follows the last one is one more."""
    text = dec(codes)
    ret = text.split('\n')
    if ret[-1] == '':
        ret.pop()
    return [enc(i) for i in ret]


def run_forked(todo):
    jobs = [{'id': i, 'kind': 'cmd', 'files': c['files'], 'argv': ['vg'] * c.get('vg', False) + argv_of(o),
             'distance': o['distance'], 'vg': c.get('vg', False)}
            for i, (c, o) in enumerate(todo)]
    results = common.run_jobs(jobs)
    ret = []
    for i in range(len(todo)):
        res = results[i]
        out = res.get('out', {})
        crash = out.get('crash') or res.get('crash') or ('no answer' if 'timeout' in res else '')
        ret.append({'crash': crash, 'status': out.get('status', 0),
                    'out': lines_of(out.get('stdout', ())), 'err': lines_of(out.get('stderr', ()))})
    return ret


def write_files(top, files):
    for name in ('x', 'sub'):
        os.mkdir(os.path.join(top, name))
    for item in files:
        path = os.path.join(top, dec(item['name']))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.exists(path):
            with open(path, 'wb') as fp:
                fp.write(b''.join(bytes(i) for i in item['lines']))


def run_program(argv, cwd, home, env=(), pycache=None, timeout=60, stdin=b''):
    """The real program; returns (status, stdout, stderr) or None when it hangs."""
    full = {'PATH': '/usr/bin:/bin', 'HOME': home, 'LANG': 'C.UTF-8', 'PYTHONUTF8': '1', 'PYTHONHASHSEED': '0'}
    if pycache:
        full['PYTHONPYCACHEPREFIX'] = pycache
    else:
        full['PYTHONDONTWRITEBYTECODE'] = '1'
    full.update(dict(env))
    try:
        proc = subprocess.run([PYPY] + argv, cwd=cwd, env=full, input=stdin,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    return proc.returncode, proc.stdout, proc.stderr


PROGRAM = os.path.join(common.REPO, 'scripts', 'asterisklint')


def observed(res):
    """What the specification compares, from a run of the program."""
    if res is None:
        return {'crash': 'no answer', 'status': 0, 'out': [], 'err': []}
    status, out, err = res
    err = err.decode('utf-8', 'replace')
    crash = ''
    if 'Traceback (most recent call last)' in err or status not in (0, 1):
        crash = 'status {}: {}'.format(status, err.strip().split('\n')[-1][:200])
    return {'crash': crash, 'status': status, 'out': lines_of(enc(out.decode('utf-8', 'replace'))),
            'err': lines_of(enc(err))}


def run_real(todo, extra_env=()):
    top = common.scratch()
    try:
        pycache = os.path.join(top, 'pycache')

        def one(n):
            c, o = todo[n]
            home = os.path.join(top, 'c{}'.format(n))
            os.mkdir(home)
            write_files(home, c['files'])
            env = dict(extra_env)
            if o['ignore'] or n % 2:
                env['ALINT_IGNORE'] = dec(o['ignore'])
            if o['distance']:
                env['PYTHONPATH'] = STUBS
            res = observed(run_program([PROGRAM] + argv_of(o), home, home, env, pycache))
            shutil.rmtree(home)
            return res
        if todo:
            first = [one(0)]     # compiles everything once
        else:
            first = []
        with ThreadPoolExecutor(8) as pool:
            return first + list(pool.map(one, range(1, len(todo))))
    finally:
        shutil.rmtree(top, ignore_errors=True)


def judge(todo, obs, outs, workers=8, chunk=1500):
    tmp = common.scratch()
    verdicts = {}
    stats = {'states': 0, 'transitions': 0}
    out = ''
    try:
        for lo in range(0, len(todo), chunk):
            path = os.path.join(tmp, 'in.json')
            with open(path, 'w') as fp:
                json.dump({'cases': [{'id': i, 'c': todo[i][0], 'o': todo[i][1], 'obs': obs[i]}
                                     for i in range(lo, min(lo + chunk, len(todo)))],
                           'outs': list(outs)}, fp)
            out, st = common.tlc('Trace_Cmd', env={'CMD_INPUT': path}, workers=workers)
            common.require_clean(out, st)
            for v in common.tagged(out, 'VERDICT'):
                verdicts[v['id']] = v
            stats['states'] += st['states']
            stats['transitions'] += st['transitions']
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if len(verdicts) != len(todo):
        raise common.MachineryError('{} verdicts for {} invocations\n{}'.format(len(verdicts), len(todo), out[-3000:]))
    return verdicts, stats


def conform(check, todo, outs, real=False, extra_env=()):
    obs = run_real(todo, extra_env) if real else run_forked(todo)
    verdicts, stats = judge(todo, obs, outs)
    check.count('states', stats['states'])
    check.count('transitions', stats['transitions'])
    check.count('traces_validated_against_impl', len(todo))
    check.count('evaluations', len(todo))
    check.count('distinct_nontrivial', len({json.dumps(i, sort_keys=True) for i in todo}))
    for i in sorted(verdicts):
        v = verdicts[i]
        if v['ok']:
            continue
        c, o = todo[i]
        b = obs[i]
        what = 'invocation {}: {} differs in {}'.format(i, ' '.join(argv_of(o)), ' '.join(sorted(v['diffs'])))
        if b['crash']:
            what += ' ({})'.format(b['crash'])
        if 'status' in v['diffs'] or 'agree' in v['diffs']:
            what += '; status {} and should be {}'.format(b['status'], v['status'])
        if 'out' in v['diffs']:
            what += '; stdout {}'.format(first_difference(v['out'], b['out']))
        if 'err' in v['diffs']:
            what += '; stderr {} and should begin {}'.format(
                [dec(j) for j in b['err']][:4], [dec(j) for j in v['err']][:4])
        check.violation(what, {'kind': 'command', 'input': show_case(c), 'argv': argv_of(o),
                               'ignore': dec(o['ignore']), 'case': c, 'invocation': o, 'observed': {
                                   'status': b['status'], 'crash': b['crash'],
                                   'stdout': [dec(j) for j in b['out']], 'stderr': [dec(j) for j in b['err']]}})
    return obs


def first_difference(exp, got):
    for i in range(max(len(exp), len(got))):
        a = dec(exp[i]) if i < len(exp) else None
        b = dec(got[i]) if i < len(got) else None
        if a != b:
            return 'line {}: {!r} and should be {!r}'.format(i + 1, b, a)
    return ''


# ---- inputs ----

def retitled(c, path):
    """The same case with its root file at another place."""
    return dict(c, ver='v13', files=[dict(c['files'][0], name=enc(os.path.normpath(path)))] + [
        f for f in c['files'][1:] if dec(f['name']) != os.path.normpath(path)])


def with_odbc(rng, c, path):
    """Now and then a func_odbc.conf next to the root, or elsewhere."""
    near = os.path.join(os.path.dirname(os.path.normpath(path)), 'func_odbc.conf')
    other = 'sub/odbc.conf'
    files = list(c['files'])
    choice = None
    if rng.random() < .5:
        lines = cases.odbc_lines(rng, rng.randint(0, 8), ['x.conf'])
        files.append(case([(near, '\n'.join(lines) + '\n')])['files'][0])
    if rng.random() < .3:
        lines = cases.odbc_lines(rng, rng.randint(0, 6), ['x.conf'])
        files.append(case([(other, '\n'.join(lines) + '\n')])['files'][0])
        choice = other if rng.random() < .6 else None
    if rng.random() < .2:
        choice = ''
    return dict(c, files=files), choice


CLASSES = ['E_APP_MISSING', 'W_WSH_EOL', 'W_WSH_VARSET', 'H_CONF_NO_ARROW', 'H_PAT_NON_CANONICAL', 'E_DP_PRIO_DUPE',
           'E_DP_PRIO_MISSING', 'W_DP_PRIO_BADORDER', 'E_FUNC_MISSING', 'H_DP_GENERAL_MISPLACED', 'W_APP_BALANCE',
           'E_CONF_BAD_LINE', 'W_WSV_EOF', 'E_APP_ARG_FEW', 'E_APP_ARG_MANY', 'W_FILE_UNIX_NOLF', 'E_DP_GOTO_NOCONTEXT',
           'E_CONF_KEY_INVALID', 'E_ODBC_NOSQL', 'W_CONF_KEY_LATE', 'H_CONF_HAS_ARROW', 'W_ODBC_LEGACY']


def ignore_list(rng):
    def entry():
        return mix(rng, (6, lambda: rng.choice(CLASSES)), (3, lambda: rng.choice(['E_', 'W_', 'H_', 'I_', 'W_WSH_', 'E_DP_', 'E_APP_ARG_', 'W_WSV_', 'W_FILE_', 'E_CONF_', 'E_APP_'])),
                   (2, lambda: rng.choice(['E', 'W', 'W_WSH', 'E_DP', 'E_APP', 'E_APP_ARG', 'H_DP', 'E_DP_PRIO', 'E_DP_PRIO_', 'W_'])), (1, lambda: rng.choice(['', ' ', '_', '*', 'e_', 'E_APP_MISSING ', 'FOO', 'E_APP_MISSINGX', 'E_APP_MISSING_'])))
    return ','.join(entry() for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6])))


def broad(rng):
    """A dialplan with a bit of everything."""
    r = rng.random()
    if r < .5:
        return cases.tree(rng, cases.dp_lines, 1, 3, noise=.1)
    return rng.choice([cases.g04, cases.g05, cases.g07, cases.g08, cases.g09, cases.g13, cases.g14, cases.g16, cases.g17])(rng)


def odbc_case(rng):
    return cases.tree(rng, cases.odbc_lines, 1, 2, mode='odbc', noise=.1)


def any_invocation(rng, cmds, ignore=False):
    cmd = rng.choice(cmds)
    ign = ignore_list(rng) if ignore else ''
    if cmd == 'func_odbc-check':
        path = rng.choice(['./func_odbc.conf', 'func_odbc.conf', 'sub/f.conf'])
        return retitled(odbc_case(rng), path), invocation(cmd, path, ignore=ign)
    path = rng.choice(['./extensions.conf', './extensions.conf', 'extensions.conf', 'sub/ext.conf'])
    c, odbc = with_odbc(rng, retitled(broad(rng), path), path)
    if cmd not in ('dialplan-check', 'modules-show'):
        odbc = None
    return c, invocation(cmd, path, odbc, cmd == 'dialplan-show' and rng.random() < .4,
                         cmd == 'ident-scan' and rng.random() < .7,
                         cmd == 'ident-scan' and rng.random() < .8, ign)


def findings_and_status(check):
    """C19: stderr, muting and exit status of the real program."""
    rng = random.Random('c19-{}'.format(SEED))
    n = 3000 if THOROUGH else 170
    todo = [any_invocation(rng, ['dialplan-check', 'dialplan-check', 'dialplan-check', 'func_odbc-check', 'func_odbc-check',
                                 'dialplan-show', 'modules-show', 'ident-scan'], True) for _ in range(n)]
    todo = [(c, silent_distance(o)) for c, o in todo]
    check.samples += [show_case(c) + '\n' + ' '.join(argv_of(o)) + ' ALINT_IGNORE=' + dec(o['ignore']) for c, o in todo[:3]]
    conform(check, todo, ['err', 'status', 'agree'], real=True)
    more = [any_invocation(rng, ['dialplan-check', 'func_odbc-check']) for _ in range(n * 3)]
    conform(check, more, ['err', 'status', 'agree'])


# one finding of every kind of name that the pieces of MC_Mute can make
MUTE_CASE = ("[general]\n[globals]\n[a]\nexten => s,1,Nosuch()\nexten => s,n,NoOp() \nexten => s,n,nosuch2(${NOSUCH(x)})\n"
             "exten => s,n,noop(${a-b})\nexten => s,5,Goto(b,1,1)\n same => n,Milliwatt(x)\noops\n")


def small_ignores(check):
    """C19: every small value of ALINT_IGNORE."""
    tmp = common.scratch()
    try:
        cfg = os.path.join(tmp, 'mc.cfg')
        with open(cfg, 'w') as fp:
            fp.write('CONSTANT Size = {}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS MuteRight Recorded\nPROPERTY NeverBack\n'.format(
                5 if THOROUGH else 4))
        out, st = common.tlc('MC_Mute', cfg, workers=8, timeout=3000)
        common.require_clean(out, st)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check.count('states', st['states'])
    check.count('transitions', st['transitions'])
    values = sorted(v['ignore'] for v in common.tagged(out, 'MUTE'))
    check.coverage['values_of_ALINT_IGNORE'] = len(values)
    rng = random.Random('mute-{}'.format(SEED))
    c = case([('extensions.conf', MUTE_CASE)])
    todo = [(c, invocation('dialplan-check', 'extensions.conf', '', ignore=dec(v))) for v in rng.sample(values, 3000 if THOROUGH else 130)]
    conform(check, todo, ['err', 'status', 'agree'], real=True)


def silent_distance(o):
    """ident-scan without the package only works with -v."""
    if o['cmd'] == 'ident-scan' and not o['verbose']:
        o['distance'] = True
    return o


def modules_show(check):
    """C17: modules-show."""
    rng = random.Random('c17-{}'.format(SEED))
    n = 5000 if THOROUGH else 250
    todo = []
    for _ in range(n):
        c = retitled(rng.choice([cases.g17, cases.g17, cases.g15, cases.g16, cases.g_modules])(rng), 'extensions.conf')
        if rng.random() < .4:
            # names that func_odbc.conf may give to its own
            text = bytes(sum(c['files'][0]['lines'], [])) + b'\n[z]\n' + b''.join(
                b'exten => s,%d,NoOp(${%s(x)})\n' % (i + 1, rng.choice([b'ODBC_FETCH', b'DB_KEYS', b'DB_EXISTS', b'SIP_HEADER', b'ODBC_FOO', b'P_BAR']))
                for i in range(rng.randint(1, 3)))
            c = dict(c, files=[mkfile('extensions.conf', text)] + c['files'][1:])
        c, odbc = with_odbc(rng, c, 'extensions.conf')
        todo.append((c, invocation('modules-show', './extensions.conf', odbc)))
    check.samples += [show_case(c) for c, o in todo[:1]]
    conform(check, todo, ['out', 'status', 'err'])


def vg_commands(check):
    """C26: the commands behind vg."""
    rng = random.Random('c26-{}'.format(SEED))
    todo = []
    for _ in range(4000 if THOROUGH else 200):
        cmd = rng.choice(['dialplan-check', 'dialplan-check', 'func_odbc-check', 'dialplan-show', 'modules-show', 'ident-scan'])
        files = cases.vg_files(rng, 'odbc' if cmd == 'func_odbc-check' else 'dialplan')
        if cmd == 'func_odbc-check':
            files[0] = ('func_odbc.conf',) + files[0][1:]
        elif rng.random() < .5:
            files.append(('func_odbc.conf', cases.vg_files(rng, 'odbc', 1)[0][1]))
        todo.append((dict(case(files), vg=True), invocation(cmd, './func_odbc.conf' if cmd == 'func_odbc-check' else './extensions.conf',
                                                            reverse=cmd == 'dialplan-show' and rng.random() < .4, verbose=cmd == 'ident-scan', distance=cmd == 'ident-scan')))
    conform(check, todo, ['out', 'err', 'status', 'agree'])


def ident_scan(check):
    """C23: ident-scan."""
    rng = random.Random('c23-{}'.format(SEED))
    n = 8000 if THOROUGH else 500
    todo = []
    for _ in range(n):
        c = ident_case(rng)
        verbose = rng.random() < .7
        todo.append((c, invocation('ident-scan', './extensions.conf', verbose=verbose,
                                   distance=rng.random() < .9 or not verbose)))
    check.samples += [show_case(c) for c, o in todo[:2]]
    conform(check, todo, ['out', 'status', 'err'])


def ident_case(rng):
    base = [gen.chars(rng, 'abcAB_1', 2, 7) for _ in range(rng.randint(1, 4))] + ['ARG1', 'ARG12', 'ARG', 'ARGx', 'EXTEN', 'Foo_bar']

    def ident():
        n = rng.choice(base)
        r = rng.random()
        if r < .2:
            n = rng.choice([n.upper(), n.lower(), n.swapcase()])
        elif r < .6:
            for _ in range(rng.randint(1, 3)):
                k = rng.randrange(len(n) + 1)
                n = rng.choice([n[:k] + rng.choice('abcAB1_') + n[k:], n[:k] + n[k + 1:], n[:k] + rng.choice('abAB12') + n[k + 1:]])
        elif r < .7:
            n = n + rng.choice('12345')
        return n or 'x'
    files = []
    names = ['extensions.conf', 'x.conf', 'sub/x.conf'][:rng.choice([1, 1, 2, 2, 3])]
    for name in names:
        ls = ['[general]', '[globals]'] if name == 'extensions.conf' and rng.random() < .7 else []
        for _ in range(rng.randint(1, 4)):
            ls.append('[%s]' % ident())
            for i in range(rng.randint(0, 5)):
                label = '(%s)' % ident() if rng.random() < .4 else ''
                app = mix(rng, (3, lambda: 'NoOp(${%s})' % ident()), (2, lambda: 'Set(%s=${%s})' % (ident(), ident())), (1, lambda: 'NoOp(${%s}${%s:1})' % (ident(), ident())),
                          (1, lambda: 'NoOp(${LEN(${%s})})' % ident()), (1, lambda: 'NoOp($[${%s} + ${%s}])' % (ident(), ident())), (.5, lambda: 'NoOp(${INC(%s)})' % ident()),
                          (1, lambda: 'Goto(%s)' % ident()), (.3, lambda: 'NoOp(${%s' % ident()))
                ls.append(mix(rng, (2, lambda: 'exten => s,%s%s,%s' % (rng.choice(['1', 'n', '2', '3']), label, app)), (3, lambda: ' same => n%s,%s' % (label, app)),
                              (.3, lambda: 'bad line ${%s}' % ident())))
            if name == 'extensions.conf' and rng.random() < .4:
                ls.append('#include %s' % rng.choice(names[1:] + ['x.conf', './x.conf', 'sub/../x.conf'][:len(names)]))
        files.append((name, '\n'.join(ls) + '\n'))
    return case(files)


def every_command(check):
    """C20: every command answers, whatever the files hold."""
    rng = random.Random('c20-{}'.format(SEED))
    n = 8000 if THOROUGH else 500
    todo = []
    for _ in range(n):
        cmd = rng.choice(['dialplan-check', 'dialplan-show', 'modules-show', 'ident-scan', 'func_odbc-check'])
        c = retitled(cases.g20(rng), 'extensions.conf')
        if cmd in ('dialplan-check', 'modules-show') and rng.random() < .4:
            lines = [rng.choice([gen.junk(rng), cases.wild_line(rng), '[FOO]', 'read=x', 'readsql=SELECT 1', 'prefix=']) for _ in range(rng.randint(0, 6))]
            c = dict(c, files=c['files'] + case([('func_odbc.conf', '\n'.join(lines))])['files'])
        path = 'extensions.conf'
        verbose = rng.random() < .7
        todo.append((c, invocation(cmd, path, None, cmd == 'dialplan-show' and rng.random() < .3,
                                   cmd == 'ident-scan' and verbose, cmd == 'ident-scan')))
    check.samples += [show_case(c) + '\n' + ' '.join(argv_of(o)) for c, o in todo[:2]]
    conform(check, todo, [])


# every place where text can stand (@), for every kind of character
PLACES = [
    '@', '@x', 'x@', '[@]', '[a@]', '[a](@)', '[@', '@=1', 'a@=1', 'a=@', 'a@=>1', '#@', '#include @', '#include x@.conf', '#tryinclude @/x', '#exec @',
    'include => @', 'switch => @', 'ignorepat => @', 'exten => @', 'exten => @,1,NoOp', 'exten => _@,1,NoOp', 'exten => _[@],1,NoOp', 'exten => _[@-z],1,NoOp',
    'exten => _[0-@]X,1,NoOp', 'exten => _X@.,1,NoOp', 'exten => s,@', 'exten => s,@,NoOp', 'exten => s,1@,NoOp', 'exten => s,n@,NoOp', 'exten => s,n(@),NoOp', 'exten => s,n(a@),NoOp',
    'exten => s,n(a)@,NoOp', 'exten => s,1,@', 'exten => s,n,@()', 'exten => s,n,No@Op()', 'exten => s,n,NoOp@()', 'exten => s,n,NoOp(@)', 'exten => s,n,NoOp(@', ' same => n,NoOp(${@})',
    ' same => n,NoOp(${a@})', ' same => n,NoOp(${a:@})', ' same => n,NoOp(${a:1@})', ' same => n,NoOp(${a:1:@})', ' same => n,NoOp(${a:-1:-@})', ' same => n,NoOp(${@(x)})', ' same => n,NoOp(${LEN(@)})',
    ' same => n,NoOp(${LEN(x)@})', ' same => n,NoOp(${LEN(x):@})', ' same => n,NoOp($[@])', ' same => n,Set(@)', ' same => n,Set(@=1)', ' same => n,Set(a=@)', ' same => n,Set(a(@)=1)', ' same => n,Set(@(x)=1)',
    ' same => n,Goto(@)', ' same => n,Goto(@,1)', ' same => n,Goto(a,@,1)', ' same => n,Goto(a,${EXTEN:@},1)', ' same => n,Goto(a,s,@)', ' same => n,Gosub(a,s,1(@))', ' same => n,Gosub(a,s,@(1))',
    ' same => n,GotoIf(@?a)', ' same => n,GotoIf($[1]?@:@)', ' same => n,ExecIf(${x}?@)', ' same => n,ExecIf(${x}?@(a):NoOp(@))', ' same => n,GotoIfTime(@?a,s,1)', ' same => n,VoiceMail(@,@)', ' same => n,Milliwatt(@)',
    ' same => n,Originate(@,app,@)', ' same => n,Originate(a,@,a)', ' same => n,Background(@)', ' same => n,NoOp(${INC(@)})', ' same => n,NoOp(${AUDIOHOOK_INHERIT(@)})', '; @', 'x ;@', 'exten @> s,1,NoOp',
    'prefix=@', 'synopsis=@', 'read=@', 'readsql=SELECT @', 'writesql=INSERT @\\;', '[general@]', '[globals@]', ';--@', '--;@']
CHARS = [bytes([i]) for i in range(33) if i != 10] + [bytes([i]) for i in (34, 39, 44, 45, 47, 61, 63, 64, 91, 92, 93, 95, 96, 123, 124, 125, 126, 127, 128, 129, 133, 160, 178, 196, 223, 255)] + [
    i.encode('utf-8') for i in (
        '\x80', '\x85', '\xa0', '\xb2', '\xc4', '\xdf', '\u0130', '\u0131', '\u01c5', '\u0300', '\u0660', '\u0966', '\u2028', '\u2029', '\u200b', '\u202e', '\u3000', '\ufeff', '\uffff', '\ufb01', '\uff11',
        '\u4e00', '\U0001d7d8', '\U0001f600', '\U0010ffff')] + [
    b'\xed\xa0\x80', b'\xc0\x80', b'\xf4\x90\x80\x80', b'', b'%s', b'{}', b'%', b'\\', b'9' * 40, b'-' + b'9' * 5000, b'1' * 9000, b'\xe2\x91\xa0', b'\xbd', b'\xc2\xbd', b'a' * 8000]


def every_place(check):
    """C20: every kind of character at every place, through every command."""
    rng = random.Random('places-{}'.format(SEED))
    todo, small = [], []
    for k, char in enumerate(CHARS):
        fill = lambda t: t.encode().replace(b'@', char)
        texts = [fill(t) for t in PLACES]
        dial = b'[general]\n[globals]\n[a]\nexten => s,1,NoOp\n' + b'\n'.join(texts) + b'\n'
        odbc = b'[A]\n' + b'\n'.join(t for t in texts if not t.startswith((b'exten', b' same'))) + b'\nread=1\n'
        c = case([('extensions.conf', dial), ('func_odbc.conf', odbc)])
        short = [case([('extensions.conf', b'[a]\nexten => s,1,NoOp\n' + t + b'\nexten => s,n,NoOp\n')]) for t in texts]
        cmds = ['dialplan-check', 'dialplan-show', 'modules-show', 'ident-scan', 'func_odbc-check']
        for cmd in cmds:
            if len(char) > 5000 and cmd == 'ident-scan':
                continue
            o = invocation(cmd, 'func_odbc.conf' if cmd.startswith('func') else 'extensions.conf', None, False, cmd == 'ident-scan', cmd == 'ident-scan')
            todo.append((c, o))
        if len(char) < 5000:
            small += [(s, invocation(rng.choice(cmds[:4]), 'extensions.conf', None, False, True, False)) for s in (short if THOROUGH else rng.sample(short, 4))]
    check.coverage['places'] = '{} kinds of characters at {} places'.format(len(CHARS), len(PLACES))
    answered(check, todo)
    conform(check, small, [])


def answered(check, todo):
    """No judgement of what is said: only that there is an answer, as any state of the specification can go on."""
    check.count('evaluations', len(todo))
    check.count('distinct_nontrivial', len(todo))
    results = run_forked(todo)
    for (c, o), r in zip(todo, results):
        if r.get('crash'):
            check.violation('{}: {}'.format(o['cmd'], r['crash'][-300:]), {'kind': 'cmd', 'input': show_case(c)[:100000], 'argv': argv_of(o), 'observed': r})
