"""Technique and level note of each check, for MANIFEST.json."""
LINT = 'TLA+ state machine of the linter (spec/Lint.tla) in TLC: {}small inputs enumerated, checked against spec/Props.tla and replayed; random runs judged by Trace_Lint'
TRUST = ' Trusted: the specification (stated twice and compared by TLC), the bounds and grammars of the inputs, pypy3, TLC.'
SMALL = 'Every input of the small scopes of MC_Lint ({}) satisfies {} and is replayed on the real code; random larger inputs are judged by the same specification.'


def lint(scope, inv, extra=''):
    return LINT.format(''), SMALL.format(scope, inv) + (' ' + extra if extra else '') + TRUST


def data(scope, inv, extra=''):
    return ('TLA+ operators on application data (spec/VarFun.tla, Apps.tla): all small texts of MC_Data checked against a second '
            'definition in TLC and replayed; random dialplans judged by Trace_Lint',
            'All texts of MC_Data ({}) satisfy {} and are replayed on the real code; random dialplans are judged by the same specification.{}'.format(
                scope, inv, ' ' + extra if extra else '') + TRUST)


PAT = ('TLA+ theory of patterns (spec/Pattern.tla): all small patterns of MC_Pattern checked in TLC and compared with the real '
       'patterns; random patterns and dialplans judged by the same operators')

NOTES = {
    'C01': lint('4 / 5 lines in 3 files', 'Inv01 and Inv06', 'Part of the inputs are read from disk.'),
    'C02': lint('3 / 4 lines of 13 kinds, all lines of 3 / 4 critical bytes', 'Inv02 (UTF-8 by grammar, endings by first and last line)'),
    'C03': lint('all lines of 5 / 6 characters', 'Inv03 (the split as a one-pass automaton)'),
    'C04': lint('all lines of 4 / 5 characters, 3 / 4 lines of 11 kinds', 'Inv04'),
    'C05': lint('5 / 6 lines in 2 files', 'Inv05 (maximal runs of blank lines)'),
    'C06': lint('every form of a directive, 4 / 5 lines over 3 files that include each other', 'Inv06 and, in every state, that no file is open twice',
                'Part of the inputs lie on disk with symbolic links.'),
    'C07': lint('3 / 4 lines of 15 kinds', 'Inv07'),
    'C08': lint('4 lines of 11 kinds; 6 specified only', 'Inv08'),
    'C09': lint('3 / 4 lines of 11 kinds', 'Inv09'),
    'C10': (PAT, 'The order is total on all small patterns and agrees with the real one; all small dialplans satisfy Inv10 and are replayed, and '
            'random ones are judged.' + TRUST),
    'C11': (PAT, 'Canonical forms are sound and unique (defined by meaning) on all patterns of up to 3-4 (thorough: 5) characters over three alphabets, '
            'each compared with the real code; random longer ones as well.' + TRUST),
    'C12': (PAT, 'Validity, matching against 30 numbers and examples agree with a second definition on all small patterns, each compared with '
            'the real code; random longer ones, and in dialplans.' + TRUST),
    'C13': lint('3 / 4 lines of 14 kinds, gotos that are partly variables', 'Inv13 (reachability by transitive closure)'),
    'C14': data('all strings of 4 / 5 pieces', 'SplitRight'),
    'C15': data('all strings of 4 / 5 pieces, through five applications', 'CondRight'),
    'C16': data('all strings of 4 / 5 pieces, of functions 3 / 4', 'VarsRight and the round trip'),
    'C17': ('TLA+ catalogue and state machine (spec/Catalogue.tla, Lint.tla, Commands.tla) in TLC: small dialplans enumerated and replayed; '
            'random runs of the linter and of modules-show judged by Trace_Lint and Trace_Cmd',
            'Every name of the three catalogues is looked up in the real code. ' + SMALL.format('3 / 4 lines of 13 kinds, and of 11 through modules-show', 'Inv17 and Inv17m') + TRUST),
    'C18': lint('3 / 4 lines of 9-12 kinds of func_odbc.conf, with a dialplan read afterwards', 'Inv18'),
    'C19': ('TLA+ specification of muting, output and status (spec/Commands.tla): all small values of ALINT_IGNORE in MC_Mute; runs of the '
            'program judged by Trace_Cmd',
            'The program itself is started as a process with generated files and values of ALINT_IGNORE, and what it prints and returns is what the '
            'specification says.' + TRUST),
    'C20': ('TLA+ state machine of the linter: bounded number of steps, no deadlock, progress (TLC); malformed inputs run through every command and '
            'judged by Trace_Lint and Trace_Cmd',
            'On all small malformed inputs the state machine ends within a bound that is linear in the input; no generated input makes a real command '
            'crash or hang (20 s). Nesting is bounded (about 100 levels).' + TRUST),
    'C21': ('TLA+ transition system of a rewrite (spec/Rewrite.tla): all small worlds with an error or a kill before every step in TLC, replayed with '
            'fault injection; random file trees judged by Trace_Rewrite',
            'Every behaviour of MC_Rewrite satisfies the all-or-nothing invariants and is replayed with the fault at the same system call, in a scratch '
            'directory. No faults in lstat, readlink, unlink.' + TRUST),
    'C22': ('TLA+ specification of the web service as a sequence of requests (spec/Session.tla): all short histories in TLC, replayed; random '
            'histories, and commands under other hash seeds and directory orders, compared',
            'Independence holds on all histories of 2 / 3 requests of 28 kinds, and fails when the registries are not emptied (checked in the '
            'thorough run). Stub for falcon.' + TRUST),
    'C23': ('TLA+ specification of ident-scan (spec/Commands.tla): small dialplans enumerated in TLC against a second definition and replayed; '
            'random runs judged by Trace_Cmd',
            SMALL.format('3 / 4 lines of 12 kinds in 2 files', 'Inv23 (neighbours without sorting, distance by recursion)') + ' Stub for editdistance.' + TRUST),
    'C24': ('TLA+ transition system of finding and running a command (spec/Dispatch.tla): all small worlds in TLC, a sample (thorough: all) '
            'replayed with the program',
            'All contents of three command directories from a set of kinds of files, with all short argument lists; what ran, the status and the listing are '
            'compared.' + TRUST),
    'C25': data('all strings of 4 / 6 pieces', 'BalanceRight (balance by derivation)'),
    'C26': lint('3 / 4 lines of 10 kinds in 2 files, 4 / 5 lines of 9 kinds, lines of 4 / 6 characters, 3 / 4 dialplan lines of 10 kinds', 'Inv26 (unfolded as a whole, '
                'comments by derivation)', 'Random commands behind vg are judged by Trace_Cmd.'),
    'C27': ('TLA+ state machine of the web service (spec/Web.tla): all short histories in TLC, replayed with opened files and run commands watched; random '
            'posted files judged by Trace_Session, texts against those of the program',
            'Routes, limits, containment and findings hold on all histories of 2 / 3 requests of 42 kinds (MC_Web). Stub for falcon.' + TRUST),
}
