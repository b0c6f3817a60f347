"""
Runs the real code under pypy3, one forked process per job.

Usage: pypy3 runner.py REPO < jobs.jsonl > results.jsonl

Every job is {"id": N, "kind": K, ...}; every result is {"id": N, "out": {...}}
or {"id": N, "crash": "..."} / {"id": N, "timeout": S}.  Texts travel as lists
of code points, so that nothing is lost on the way.
"""
import io
import json
import os
import resource
import select
import shutil
import signal
import sys
import time
import traceback

REPO = sys.argv[1]
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
TIMEOUT = float(os.environ.get('VERIF_JOB_TIMEOUT', '20'))


def enc(text):
    return [ord(i) for i in text]


def dec(codes):
    return ''.join(chr(i) for i in codes)


# kwargs that hold the argument of a message, as the specification has it
ARGS = {
    'E_CONF_BAD_LINE': ('startswith',), 'W_PP_EXEC': ('cmd',),
    'E_PP_INCLUDE_LOOP': ('filename',), 'W_PP_INCLUDE_MISSING': ('filename',),
    'E_VAR_BAD_TOKENS': ('data',), 'E_FUNC_MISSING': ('func',),
    'E_FUNC_BAD_CASE': ('func', 'proper'),
    'W_FUNC_BALANCE': ('data',), 'W_APP_BALANCE': ('data',),
    'E_APP_ARG_IFSTYLE': ('app', 'data', 'cond', 'args'), 'E_APP_ARG_IFCONST': ('cond',),
    'E_APP_ARG_BADOPT': ('opts',), 'E_APP_WSH': ('app',),
    'W_APP_WSH': ('app',), 'E_APP_MISSING': ('app',),
    'W_APP_BAD_CASE': ('app', 'proper'), 'E_APP_PARSE_ERROR': ('app', 'args'),
    'H_PAT_NON_CANONICAL': ('pat', 'expected'),
    'E_DP_PRIO_INVALID': ('prio',), 'E_DP_LABEL_INVALID': ('label',),
    'E_DP_PRIO_MISSING': ('pat',), 'W_DP_PRIO_BADORDER': ('pat', 'prio'),
    'E_DP_PRIO_DUPE': ('prio', 'previous'),
    'E_DP_LABEL_DUPE': ('label', 'previous'),
    'W_CONF_CTX_DUPE': ('previous',), 'E_DP_GLOBALS_DUPE': ('previous',),
    'E_CONF_KEY_DUPE': ('key', 'previous'), 'E_CONF_KEY_INVALID': ('key',),
    'W_CONF_KEY_LATE': ('key',), 'W_ODBC_BADTOKENS': ('name',),
    'E_DP_GOTO_NOCONTEXT': ('context', 'exten', 'prio'),
    'E_DP_GOTO_NOLABEL': ('context', 'exten', 'label'),
    'E_DP_GOTO_CONTEXT_NOLABEL': ('context', 'exten', 'label'),
    'W_DP_GOTO_CONTEXT_NOEXTEN': ('context', 'exten', 'prio'),
}


def place(obj):
    """Where a previous occurrence is."""
    where = getattr(obj, 'where', obj)
    return enc(where.filename) + [-1] + enc(str(where.lineno))


def shown(value):
    if isinstance(value, (list, tuple)):
        ret = []
        for i, item in enumerate(value):
            ret += ([-1] if i else []) + enc(str(item))
        return ret
    return enc(str(value))


def message_arg(name, msg):
    keys = ARGS.get(name, ())
    ret = []
    used = False
    for key in keys:
        if key == 'previous':
            part = place(msg.previous)
        elif key not in msg.fmtkwargs:
            continue
        elif name == 'H_PAT_NON_CANONICAL':
            part = list(str(msg.fmtkwargs[key]).encode('utf-8', 'surrogateescape'))
        else:
            part = shown(msg.fmtkwargs[key])
        ret += ([-1] if used else []) + part
        used = True
    return ret


def messages():
    from asterisklint.defines import MessageDefManager
    ret = []
    for name, msgs in MessageDefManager.raised.items():
        for msg in msgs:
            ret.append({
                'c': name, 'f': enc(msg.where.filename), 'l': msg.where.lineno,
                'a': message_arg(name, msg)})
    return ret


def memory_opener(files):
    from asterisklint.alinttest import NamedBytesIO
    table = {}
    for item in files:
        table.setdefault(
            os.path.normpath(dec(item['name'])),
            b''.join(bytes(i) for i in item['lines']))

    def opener(filename):
        key = os.path.normpath(filename)
        if '\0' in filename:
            raise ValueError('embedded null byte')
        if key not in table:
            raise FileNotFoundError(2, 'No such file', filename)
        return NamedBytesIO(filename, table[key])
    return opener


def setrec(varset):
    return {'var': enc(varset.variable), 'val': enc(varset.value),
            'arrow': bool(varset.arrow), 'f': enc(varset.where.filename),
            'l': varset.where.lineno}


def extrec(ext):
    return {'raw': enc(ext.pattern.raw), 'prio': enc(str(ext.prio)),
            'label': [-1] if ext.label is None else enc(ext.label),
            'app': enc(ext.app.raw), 'f': enc(ext.where.filename),
            'l': ext.where.lineno}


def finish_dialplan(dialplan, out):
    dialplan.walk_jump_destinations()
    out['ctxs'] = [
        {'name': enc(ctx.name), 'exts': [extrec(i) for i in ctx],
         'incs': [enc(i.context_name) for i in ctx.includes]}
        for ctx in dialplan.contexts]
    out['gsets'] = [setrec(i) for i in dialplan.general]
    out['vsets'] = [setrec(i) for i in dialplan.globals]
    out['show'] = [enc(i) for i in dialplan.format_as_dialplan_show(reverse=False).split('\n')]
    out['rshow'] = [enc(i) for i in dialplan.format_as_dialplan_show(reverse=True).split('\n')]


def job_lint(job):
    from asterisklint import (
        FileConfigParser, FileDialplanParser, FileFuncOdbcParser)
    from asterisklint.file import FileReader
    from asterisklint.version import AsteriskVersion
    from asterisklint.application import AppLoader
    from asterisklint.varfun import FuncLoader, VarLoader
    if job.get('vg'):
        # as the vg command would: it puts its own readers in the place of these
        import asterisklint
        import asterisklint.file
        from asterisklint.main import load_command
        load_command('vg', os.path.join(REPO, 'contrib', 'commands', 'vg.py'))
        FileReader = asterisklint.file.FileReader
        FileConfigParser = asterisklint.FileConfigParser
        FileDialplanParser = asterisklint.FileDialplanParser
        FileFuncOdbcParser = asterisklint.FileFuncOdbcParser
    if job.get('ver'):
        # as the commands would: chosen before anything is loaded
        set_version(job['ver'])
    out = {'read': [], 'conf': [], 'ctxs': [], 'gsets': [], 'vsets': [],
           'show': [], 'rshow': []}
    if job.get('disk'):
        opener = None
        os.chdir(on_disk(job['files'], job.get('links', ())))
    else:
        opener = memory_opener(job['files'])
    kwargs = {'opener': opener} if opener else {}
    for run in job['runs']:
        out['conf'] = []
        cls = {'reader': FileReader, 'conf': FileConfigParser,
               'dialplan': FileDialplanParser,
               'odbc': FileFuncOdbcParser}[run['mode']]
        parser = cls(**kwargs)
        parser.include(dec(run['root']))
        if run['mode'] == 'reader':
            for where, data, comment in parser:
                out['read'].append({
                    'f': enc(where.filename), 'l': where.lineno,
                    'data': enc(data), 'comment': enc(comment)})
        elif run['mode'] == 'dialplan':
            dialplan = next(iter(parser))
            finish_dialplan(dialplan, out)
        else:
            out['conf'] = [
                {'name': enc(ctx.name), 'f': enc(ctx.where.filename),
                 'l': ctx.where.lineno, 'sets': [setrec(i) for i in ctx]}
                for ctx in parser]
    out['msgs'] = messages()
    if any(i['mode'] == 'dialplan' for i in job['runs']):
        out['vars'] = [
            {'n': enc(name), 'f': enc(where.filename)}
            for name, wheres in known_variables().items()
            for where in wheres]
        out['apps'] = sorted(set(
            (i.name, i.module) for i in AppLoader().used_apps))
        out['funcs'] = sorted(set(
            (i.name, i.module) for i in FuncLoader().used_funcs))
    else:
        out['vars'], out['apps'], out['funcs'] = [], [], []
    return out


def known_variables():
    """Name to places; wherever the loader keeps them."""
    from asterisklint.varfun import VarLoader
    loader = VarLoader()
    if hasattr(loader, '_variables'):
        return loader._variables
    for value in vars(loader).values():
        if isinstance(value, dict) and value and all(
                isinstance(k, str) and isinstance(v, list) and all(hasattr(i, 'lineno') for i in v)
                for k, v in value.items()):
            return value
    return {}


def set_version(name):
    from asterisklint.version import AsteriskVersion
    AsteriskVersion(name)


def on_disk(files, links=()):
    """Write the files in a directory of their own, removed by the parent."""
    scratch = os.environ['ALR_SCRATCH']
    os.mkdir(scratch)
    for name in ('x', 'sub'):   # for paths such as x/../y.conf
        os.mkdir(os.path.join(scratch, name))
    for item in files:
        path = os.path.join(scratch, dec(item['name']))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.exists(path):
            with open(path, 'wb') as fp:
                fp.write(b''.join(bytes(i) for i in item['lines']))
    for item in links:
        os.symlink(dec(item['to']), os.path.join(scratch, dec(item['name'])))
    return scratch


def job_pattern(job):
    """Facts about a list of patterns."""
    from asterisklint.pattern import Pattern
    from asterisklint.where import DUMMY_WHERE
    out = []
    pats = []
    for raw in job['pats']:
        try:
            pat = Pattern(dec(raw), DUMMY_WHERE)
            valid = bool(pat.is_valid)
            rec = {'valid': valid}
            if valid:
                rec['canon'] = list(pat.canonical_pattern.encode('utf-8', 'surrogateescape'))
                rec['iscanon'] = bool(pat.is_canonical)
                rec['example'] = list(pat.example.encode('utf-8', 'surrogateescape'))
                rec['selfmatch'] = bool(pat.matches_extension(pat.example))
            pats.append(pat if valid else None)
        except Exception as e:
            rec = {'valid': False, 'crash': repr(e)}
            pats.append(None)
        out.append(rec)
    res = {'pats': out, 'accepts': [], 'order': [], 'eq': []}
    for pi, number in job.get('accepts', ()):
        try:
            res['accepts'].append(bool(pats[pi].matches_extension(dec(number))))
        except Exception as e:
            res['accepts'].append(repr(e))
    for a, b in job.get('pairs', ()):
        try:
            pa, pb = pats[a], pats[b]
            res['order'].append([bool(pa < pb), bool(pb < pa), bool(pa == pb), bool(pb > pa),
                                 bool(hash(pa) == hash(pb))])
        except Exception as e:
            res['order'].append(repr(e))
    return res


def tokens(value):
    """A str or Var as text parts: [[0, text] or [1, text of the variable]]."""
    from asterisklint.variable import Var
    if isinstance(value, str):
        return [[0, enc(value)]] if value else []
    out = []
    for item in value:
        if isinstance(item, Var):
            out.append([1, enc(str(item))])
        elif out and out[-1][0] == 0:
            out[-1][1].extend(enc(item))
        else:
            out.append([0, enc(item)])
    return out


def job_split(job):
    """separate_args of texts (with variables parsed when asked)."""
    from asterisklint.app.base import AppBase
    from asterisklint.varfun import VarLoader
    from asterisklint.where import DUMMY_WHERE
    out = []
    if not hasattr(AppBase, 'separate_args') or not hasattr(VarLoader(), 'parse_variables'):
        return {'gone': True}   # not the only way to see what it does
    for item in job['items']:
        data = dec(item['data'])
        try:
            if item.get('parse'):
                data = VarLoader().parse_variables(data, DUMMY_WHERE)
            parts = AppBase.separate_args(
                data, delimiter=chr(item['delim']),
                remove_quotes_backslashes=item['remove'])
            out.append([tokens(i) for i in parts])
        except Exception as e:
            out.append(repr(e))
    return {'items': out}


def job_app(job):
    """One application line: messages and gotos."""
    from asterisklint.application import App
    from asterisklint.where import Where
    if job.get('ver'):
        set_version(job['ver'])
    out = []
    from asterisklint.varfun import VarLoader, VarParseError
    for n, raw in enumerate(job['lines']):
        rec = {}
        try:
            app = App(dec(raw), Where('f', n + 1, b''))
            rec['jumps'] = [] if not hasattr(app, 'jump_destinations') else [
                [enc(str(i) if i is not None else '') for i in jump]
                for jump in app.jump_destinations]
        except Exception as e:
            rec['crash'] = ''.join(traceback.format_exception_only(type(e), e)).strip()
            rec['jumps'] = []
        out.append(rec)
    msgs = messages()
    variables = [
        {'n': enc(name), 'l': where.lineno}
        for name, wheres in known_variables().items() for where in wheres]
    return {'lines': out, 'msgs': msgs, 'vars': variables}


def job_vars(job):
    """Parse variables: the written-out form, per text."""
    from asterisklint.varfun import VarLoader, VarParseError
    from asterisklint.where import Where
    out = []
    if not hasattr(VarLoader(), 'parse_variables'):
        return {'gone': True}
    for n, raw in enumerate(job['lines']):
        try:
            data = VarLoader().parse_variables(dec(raw), Where('f', n + 1, b''))
            out.append({'text': enc(str(data)), 'toks': tokens(data), 'err': False})
        except VarParseError:
            out.append({'text': [], 'toks': [], 'err': True})
        except Exception as e:
            out.append({'text': [], 'toks': [], 'err': True, 'crash': repr(e)})
    return {'lines': out, 'msgs': messages()}


def job_web(job):
    """Requests to the web service, one after another."""
    import runpy
    sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'))
    web = runpy.run_path(os.path.join(REPO, 'web', 'wsgi.py'), run_name='wsgi')
    app = web['application']
    falcon = sys.modules['falcon']
    seen = {'opened': [], 'ran': []}
    if job.get('watch'):
        os.chdir(on_disk(job['files']))
        watch(seen)

    class Response(object):
        status = '200 OK'
        content_type = None
        body = text = data = media = None

    class Request(object):
        @property
        def media(self):
            self.used = True
            return self.given

        def get_media(self, *args, **kwargs):
            return self.media
    answers = []
    for item in job['requests']:
        req, resp = Request(), Response()
        text = dec(item['text'])
        req.used = False
        req.env = {'wsgi.multithread': item['body'] == 'threads' or item.get('threads', False), 'REMOTE_ADDR': '192.0.2.1'}
        req.content_length = 1000000 if item['body'] == 'big' else len(text) + 40
        if 'len' in item:
            req.content_length = None if item['len'] < 0 else item['len']
        req.method, req.path = item.get('method', 'POST'), item.get('path', '/dialplan-check')
        req.given = {'nofiles': {'file': text}, 'notext': {'files': {'extensions.conf': 5}},
                     'nodict': [text], 'other': {'files': {'other.conf': text}}}.get(
                         item['body'], {'files': {'extensions.conf': text}})
        seen['opened'], seen['ran'] = [], []
        answer = {'refused': False, 'names': [], 'msgs': [], 'error': '', 'version': '', 'page': [], 'type': ''}
        try:
            app.handle(req.method, req.path, req, resp)
            answer['status'] = int(str(resp.status).split(' ')[0].replace('HTTP_', ''))
            answer['type'] = resp.content_type or ''
            page = resp.body or resp.text or resp.data
            if page is not None:
                answer['page'] = enc(page if isinstance(page, str) else page.decode('utf-8'))
            if resp.media is not None:
                results = resp.media['results']
                answer.update({'names': sorted(results), 'version': resp.media['asterisklint']['version'],
                               'msgs': [[i['line'], i['class'], i['desc']] for i in results.get('extensions.conf', [])]})
        except BaseException as e:
            status = [n for c, n in ((falcon.HTTPNotFound, 404), (falcon.HTTPMethodNotAllowed, 405), (falcon.HTTPPayloadTooLarge, 413),
                                     (falcon.HTTPBadRequest, 400)) if isinstance(e, c)]
            answer.update({'refused': True, 'status': (status + [500])[0], 'error': '{}: {}'.format(type(e).__name__, e)[:200]})
        answer.update({'opened': seen['opened'], 'ran': seen['ran'], 'read': req.used})
        answers.append(answer)
    return {'answers': answers}


def watch(seen):
    """Write down which files are opened and what is run, and refuse to."""
    import builtins
    import subprocess
    ours = [os.path.realpath(i) for i in (REPO, sys.prefix, os.path.dirname(os.__file__), os.path.dirname(os.path.abspath(__file__)))]

    def watched(func, kind):
        def inner(*args, **kwargs):
            what = args[0] if args else kwargs.get('file', kwargs.get('path', kwargs.get('args')))
            if kind == 'opened' and (isinstance(what, int) or any(os.path.realpath(what).startswith(i + os.sep) for i in ours)):
                return func(*args, **kwargs)
            seen[kind].append(str(what)[:100])
            raise PermissionError(13, 'not from the web', str(what)[:100])
        return inner
    builtins.open = io.open = watched(io.open, 'opened')
    os.open = watched(os.open, 'opened')
    for module, name in ((os, 'system'), (os, 'popen'), (os, 'fork'), (os, 'execv'), (os, 'execve'), (os, 'execvp'), (os, 'execvpe'),
                         (os, 'posix_spawn'), (subprocess, 'Popen'), (subprocess, 'call'), (subprocess, 'run'), (subprocess, 'check_output')):
        if hasattr(module, name):
            setattr(module, name, watched(getattr(module, name), 'ran'))


def job_cmd(job):
    """A command as the program runs it, in a scratch directory."""
    return run_cmd(job)


def run_cmd(job):
    scratch = on_disk(job['files'])
    os.chdir(scratch)
    os.environ['HOME'] = scratch
    for key, value in job.get('env', {}).items():
        os.environ[key] = value
    if job.get('vg'):
        commands = os.path.join(scratch, '.asterisklint', 'asterisklint', 'commands')
        os.makedirs(commands)
        shutil.copy(os.path.join(REPO, 'contrib', 'commands', 'vg.py'), commands)
    if job.get('distance'):
        sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'))
    return capture(lambda: main_of(job['argv']))


def main_of(argv):
    from asterisklint.main import main
    return main([i for i in argv], dict(os.environ))


def capture(func):
    out, err = io.StringIO(), io.StringIO()
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    crash = ''
    status = None
    try:
        status = func()
    except SystemExit as e:
        status = e.code
    except BaseException as e:
        crash = '{}: {}'.format(type(e).__name__, e)[:300]
    finally:
        sys.stdout, sys.stderr = old
    return {'status': int(status or 0) if not isinstance(status, str) else 1,
            'crash': crash, 'stdout': enc(out.getvalue()), 'stderr': enc(err.getvalue())}


class Faults(object):
    """Counts what is done to files after the user answered; the fault takes the place of number `at`."""
    def __init__(self, kind, at):
        self.kind, self.at = kind, at
        self.count = 0
        self.armed = False
        self.log = []

    def step(self, name, soft=False, undo=False, late=False):
        """soft: a failure would be taken for an answer; undo: part of cleaning up."""
        if not self.armed:
            return False
        self.count += 1
        self.log.append(name)
        if self.count != self.at:
            return False
        if self.kind == 'kill':
            os.kill(os.getpid(), signal.SIGKILL)
        if self.kind == 'interrupt' and not undo:
            raise KeyboardInterrupt()
        if self.kind == 'error' and not soft and not undo:
            raise OSError(5, 'Input/output error (' + name + ')')
        if self.kind == 'late':
            return late
        return False

    def wrap(self, module, name, **kw):
        real = getattr(module, name, None)
        if real is None:
            return

        def func(*args, **kwargs):
            if name in ('rename', 'replace', 'link') and len(args) > 1 and (
                    '/.spare/' in os.path.abspath(str(args[0])) and '/.spare/' not in os.path.abspath(str(args[1]))):
                raise OSError(18, 'Invalid cross-device link')   # TMPDIR is elsewhere
            late = self.step(name, late=name in ('rename', 'replace', 'chmod', 'chown', 'fchmod', 'fchown'), **kw)
            ret = real(*args, **kwargs)
            if late:
                raise KeyboardInterrupt()
            return ret
        setattr(module, name, func)

    def install(self):
        import builtins
        for name in ('rename', 'replace', 'chmod', 'chown', 'lchown', 'fchmod', 'fchown', 'link', 'symlink',
                     'truncate', 'ftruncate', 'fsync', 'fdatasync', 'open', 'utime', 'mkdir', 'sendfile'):
            self.wrap(os, name)
        for name in ('unlink', 'remove', 'rmdir'):
            self.wrap(os, name, undo=True)
        for name in ('stat', 'lstat', 'fstat'):
            self.wrap(os, name, soft=True)
        real = io.open

        def opened(*args, **kwargs):
            self.step('open')
            return FaultyFile(real(*args, **kwargs), self)
        builtins.open = io.open = opened

    def arm(self):
        self.armed = True
        if self.kind == 'full':
            # no file may grow beyond this
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.at, self.at))


class FaultyFile(object):
    def __init__(self, real, faults):
        self.__dict__.update(_real=real, _faults=faults)

    def __getattr__(self, name):
        value = getattr(self._real, name)
        if name in ('read', 'readline', 'readlines', 'read1', 'readinto', 'write', 'writelines', 'flush', 'truncate', 'seek'):
            def func(*args, **kwargs):
                self._faults.step('file.' + name)
                return value(*args, **kwargs)
            return func
        return value

    def __setattr__(self, name, value):
        setattr(self._real, name, value)

    def __iter__(self):
        return self

    def __next__(self):
        self._faults.step('file.next')
        return next(self._real)

    def close(self):
        if not self._real.closed:
            try:
                self._faults.step('file.close')
            finally:
                self._real.close()

    def __enter__(self):
        self._real.__enter__()
        return self

    def __exit__(self, *args):
        self.close()


class Typed(io.StringIO):
    """What the user types; from the answer on faults count."""
    def __init__(self, text, faults):
        super().__init__(text)
        self.faults = faults
        self.asked = False

    def readline(self, *args):
        self.asked = True
        ret = super().readline(*args)
        self.faults.arm()
        return ret


class Spoken(io.StringIO):
    def __init__(self, faults):
        super().__init__()
        self.faults = faults

    def write(self, text):
        self.faults.step('print')
        return super().write(text)


def job_rewrite(job):
    """Run a rewriting tool on real files, with a fault; what is there afterwards."""
    import runpy
    import tempfile
    top = on_disk(job['files'])
    spare = os.path.join(top, '.spare')
    os.chmod(top, 0o755)
    links = {dec(i['name']): dec(i['target']) for i in job['links']}
    names = [dec(i['name']) for i in job['files']]
    for name, target in links.items():
        path = os.path.join(top, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        os.symlink(target, path)
    os.chdir(top)

    def facts(name):
        st = os.stat(name)
        with open(name, 'rb') as fp:
            return fp.read(), st.st_ino, st.st_mtime_ns, st.st_mode, st.st_uid, st.st_gid
    for item in job['files']:
        name = dec(item['name'])
        os.chown(name, item['uid'], item['gid'])
        os.chmod(name, item['mode'])
        os.utime(name, (1000000000, 1000000000))
    before = {name: facts(name) for name in names}
    listing = tree_of('.')
    os.mkdir(spare)
    os.environ['TMPDIR'] = spare
    tempfile.tempdir = None
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        faults = Faults(job['fault'], job['at'])
        try:
            os.close(r)
            os.umask(0o22)
            sys.argv = [job['script'], job['path']]
            stdin = Typed(dec(job['typed']), faults)
            out = Spoken(faults)
            faults.install()
            sys.stdin, sys.stdout, sys.stderr = stdin, out, io.StringIO()
            error = ''
            try:
                runpy.run_path(os.path.join(REPO, 'contrib', job['script']), run_name='__main__')
                status = 0
            except SystemExit as e:
                status = 1 if e.code else 0
            except BaseException as e:
                error = '{}: {}'.format(type(e).__name__, e)[:200]
            faults.armed = False
            os.write(w, json.dumps({'status': status, 'error': error, 'asked': stdin.asked,
                                    'steps': faults.log[:400], 'out': out.getvalue()[-300:]}).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        more = os.read(r, 65536)
        if not more:
            break
        data += more
    os.waitpid(pid, 0)
    ret = json.loads(data.decode()) if data else {'status': -9, 'error': 'killed', 'asked': True, 'steps': [], 'out': ''}
    ret['extra'] = [enc(i) for i in sorted((tree_of('.') - listing) | {'.spare/' + i for i in os.listdir(spare)} - {'.spare'})
                    if i != '.spare']
    ret['files'] = {}
    for name in names:
        if not os.path.isfile(name) or os.path.islink(name):
            ret['files'][name] = {'lines': [], 'same': False, 'attrs': False, 'link': not os.path.islink(name)}
            continue
        old, new = before[name], facts(name)
        ret['files'][name] = {'lines': [list(new[0])], 'same': old[:3] == new[:3], 'attrs': old[3:] == new[3:], 'link': True}
    ret['links'] = {name: os.path.islink(name) and os.readlink(name) == target for name, target in links.items()}
    return ret


def tree_of(top):
    ret = set()
    for root, dirs, files in os.walk(top):
        for name in dirs + files:
            ret.add(os.path.relpath(os.path.join(root, name), top))
    return ret


KINDS = {k[4:]: v for k, v in list(globals().items()) if k.startswith('job_')}


def child(job, fd):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        res = {'id': job['id'], 'out': KINDS[job['kind']](job)}
    except BaseException as e:
        tail = traceback.extract_tb(e.__traceback__)[-1]
        res = {'id': job['id'], 'crash': '{}: {} ({}:{})'.format(
            type(e).__name__, str(e)[:200], os.path.basename(tail[0]), tail[1])}
    data = json.dumps(res).encode()
    pos = 0
    while pos < len(data):
        pos += os.write(fd, data[pos:pos + 65536])


def run_one(job):
    r, w = os.pipe()
    scratch = os.path.join(SCRATCH, 'j{}'.format(job['id']))
    pid = os.fork()
    if pid == 0:
        try:
            os.environ['ALR_SCRATCH'] = scratch
            os.close(r)
            os.setpgid(0, 0)
            sys.stderr = io.StringIO()
            child(job, w)
        finally:
            os._exit(0)
    os.close(w)
    limit = job.get('timeout', TIMEOUT)
    end = time.time() + limit
    chunks = []
    timed_out = False
    while True:
        left = end - time.time()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        data = os.read(r, 65536)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if os.path.isdir(scratch):
        shutil.rmtree(scratch, ignore_errors=True)
    if timed_out:
        return {'id': job['id'], 'timeout': limit}
    try:
        return json.loads(b''.join(chunks).decode())
    except ValueError:
        return {'id': job['id'], 'crash': 'died without an answer'}


def preload():
    """Import what every job needs; nothing that keeps state is made."""
    import asterisklint
    import asterisklint.alinttest
    import asterisklint.application
    import asterisklint.main
    import asterisklint.mainutil
    import importlib
    import glob
    for ver in ('vall', 'v13', 'v11'):
        for what in ('app', 'func'):
            for path in sorted(glob.glob(os.path.join(REPO, 'asterisklint', what, ver, '*.py'))):
                name = os.path.basename(path)[:-3]
                if name != '__init__':
                    importlib.import_module('asterisklint.{}.{}.{}'.format(what, ver, name))


def worker(jobs, n, path):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    with open(path, 'w') as fp:
        for job in jobs[n::WORKERS]:
            fp.write(json.dumps(run_one(job)) + '\n')


def main():
    global SCRATCH
    import tempfile
    jobs = [json.loads(line) for line in sys.stdin if line.strip()]
    preload()
    tmp = SCRATCH = tempfile.mkdtemp(prefix='alr-')
    try:
        pids = []
        for n in range(WORKERS):
            path = os.path.join(tmp, str(n))
            pid = os.fork()
            if pid == 0:
                status = 1
                try:
                    worker(jobs, n, path)
                    status = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(status)
            pids.append((pid, path))
        bad = 0
        for pid, path in pids:
            _, status = os.waitpid(pid, 0)
            bad |= status
            with open(path) as fp:
                shutil.copyfileobj(fp, sys.stdout)
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
