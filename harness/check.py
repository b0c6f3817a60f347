#!/usr/bin/env python3
"""The check of one property: check.py <ID>."""
import json
import random
import sys
import traceback

import cases
import commands
import common
import data
import dispatch
import lintcases
import patterns
import rewrite
import session
import web
import small
import table
from common import SEED, THOROUGH, Check

CHECKS = {}
LEVELS = {}


def part(*props):
    def deco(func):
        for p in props:
            CHECKS.setdefault(p, []).append(func)
        return func
    return deco


@part(*sorted(table.LINT))
def random_conformance(check):
    """Random inputs: the real linter against the state machine."""
    classes, outs, generate, quick, thorough = table.LINT[check.prop]
    n = thorough if THOROUGH else quick
    rng = random.Random('{}-{}'.format(check.prop, SEED))
    todo = [generate(rng) for _ in range(n - n // 40)]
    with cases.Large():
        todo += [generate(rng) for _ in range(n // 40)]
    swept = cases.sweeps(check.prop)
    todo += swept
    n += len(swept)
    check.coverage['swept'] = len(swept)
    seen = {json.dumps(c, sort_keys=True) for c in todo}
    check.count('evaluations', n)
    check.count('distinct_nontrivial', len(seen))
    check.coverage['rule'] = (
        'random inputs of the grammar of harness/cases.py:{}; non-trivial: the input is not a '
        'repetition of another one'.format(generate.__name__))
    check.samples += [lintcases.show_case(c) for c in todo[:3]]
    lintcases.conform(check, todo, classes, outs)
    if check.prop in table.RESTATED:
        some = todo[:4000] if THOROUGH else todo[:120]
        lintcases.restated(check, some, 'Inv' + check.prop[1:])


part(*sorted(small.SCOPES))(small.small_inputs)
part(*sorted(small.SHOWN))(small.small_commands)
part(*sorted(data.SCOPES))(data.small_data)
part('C10', 'C11', 'C12')(patterns.small_patterns)
part('C10', 'C11', 'C12')(patterns.random_patterns)

part('C19')(commands.small_ignores)
part('C19')(commands.findings_and_status)
part('C17')(commands.modules_show)
part('C26')(commands.vg_commands)
part('C23')(commands.ident_scan)
part('C20')(commands.every_command)
part('C20')(commands.every_place)
part('C24')(dispatch.dispatch)
part('C21')(rewrite.random_rewrites)
part('C21')(rewrite.replay_worlds)
part('C22')(session.replay_histories)
part('C22')(session.random_requests)
part('C22')(session.again)
part('C27')(web.replay)
part('C27')(web.same_findings)


def main():
    prop = sys.argv[1]
    check = Check(prop, 'model_checking')
    try:
        for func in CHECKS[prop]:
            func(check)
    except common.RunnerFailed as e:
        check.violation('the code does not even load: {}'.format(str(e)[-400:]), {'error': str(e)})
    return check.finish()


if __name__ == '__main__':
    try:
        sys.exit(main())
    except common.MachineryError as e:
        print('ERROR', e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
