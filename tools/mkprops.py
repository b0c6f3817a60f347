#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

A = 'asterisklint/'
prop('C01', 'Every physical line is linted once, in include order, at its own place',
 'For any tree of configuration files joined by #include/#tryinclude, every physical line of every included file is processed exactly once per inclusion, at the position of the directive, after which processing resumes on the line after the directive in the including file, whatever the sizes, endings and encodings of the files. '
 'Everything the linter reports, and every context or setting it yields, carries the name of the file that physically holds the line and its 1-based line number in that file (a finding about something that is absent carries line 0).',
 ['inputs', 'histories'], 'all finite include trees (nested, repeated, empty and missing files), all line contents',
 'Tests use one or two fixed include layouts with a handful of lines; the guarantee is over every nesting and interleaving of directives, empty files and unterminated last lines.',
 [A+'file.py', A+'config.py', A+'where.py'],
 [('reader stack', A+'file.py BinFileReader'), ('directive handling', A+'config.py ConfigParser.preprocessor')],
 ['FileReader/FileConfigParser iteration', 'where of every message'])
prop('C02', 'Encoding, control characters and line endings are judged per line and file',
 'A line is reported as badly encoded exactly when its bytes are not valid UTF-8 (and is then still linted, read as Windows-1252), as holding control characters exactly when it holds one other than tab, CR or LF, and as having trailing whitespace exactly when it ends in a space or tab before its terminator. '
 'Each file counts as DOS when its first line ends in CRLF (or has no terminator) and as Unix otherwise; then exactly the lines with the other terminator are reported, plus a missing final LF (Unix) or a present final LF (DOS) at the last line of that file. '
 'Line terminators never become part of any name or value, and a problem on one line never changes how another line is read.',
 ['inputs'], 'all byte strings as file contents, and all include trees of such files',
 'Tests hold a few fixed byte strings; the property is over every byte sequence, every mix of terminators and every include layout.',
 [A+'file.py'],
 [('UTF-8 decoding with fallback', A+'file.py EncodingReader'), ('control characters', A+'file.py NoCtrlReader'), ('line endings', A+'file.py FileformatReader')],
 ['FileReader iteration', 'E_FILE_UTF8_BAD, W_FILE_*, W_WSH_EOL messages'])
prop('C03', 'Comments are split off exactly at the first unescaped semicolon',
 'For every line, the data part is the text before the first semicolon that is not directly preceded by a backslash, with each backslash-semicolon pair turned into one semicolon and the whitespace before the comment moved to the comment; the rest of the line is comment and never influences any setting. '
 'A missing-whitespace-before-comment warning is given exactly when that semicolon directly follows a character other than space or tab.',
 ['inputs'], 'all lines over any characters, any number and placement of semicolons and backslashes',
 'Escaping is a lookback over arbitrary strings; tests list a dozen strings.',
 [A+'file.py'], [('comment split', A+'file.py AsteriskCommentReader.asterisk_comment_split')],
 ['FileReader iteration (data, comment)', 'W_WSH_COMMENT messages', 'FileConfigParser values'])
prop('C04', 'Every non-empty config line becomes exactly one thing: nothing is silently lost',
 'Every line that is not blank after comment removal is exactly one of: a context header, a setting belonging to the last header above it, a preprocessor directive, or reported as a bad line (or as a setting before any context); settings keep file order and their exact name, value and operator. '
 'Whitespace around "=>" other than one space on each side, any whitespace around "=", and leading whitespace on a header, directive or setting (other than a dialplan "same") are reported on exactly that line.',
 ['inputs'], 'all lines over any characters and all sequences of such lines',
 'The classification is an ordered list of patterns over all strings; tests cover only plain well-formed lines and a few errors.',
 [A+'config.py', A+'configobj.py'],
 [('line classification', A+'config.py ConfigParser.regexes'), ('settings kept per context', A+'config.py ConfigAggregator'), ('whitespace checks', A+'configobj.py Varset/Context')],
 ['FileConfigParser iteration (contexts and their settings)', 'E_CONF_*, W_WSH_* messages'])
prop('C05', 'Vertical whitespace is reported exactly where the house style is broken',
 'Per file: blank lines at the top (of a file with any header or setting) or at the bottom are reported as such; a context header needs at least one blank or comment line before it when the previous context in that file holds more than two settings, and at most two consecutive blank lines; a setting has at most one consecutive blank line before it. '
 'Lines with a comment are never counted as blank and split a run of blanks, directives and bad lines are looked through, each offending run is reported once, and the spacing in an included file never changes what is reported for the including file.',
 ['inputs', 'histories'], 'all sequences of headers, settings, blanks and comment lines, in any include layout',
 'It is a state machine over whole files and an include stack; tests walk a few short paths of it.',
 [A+'configws.py'], [('per-file blank bookkeeping', A+'configws.py VswContext/VswContextStack')],
 ['H_WSV_CTX_BETWEEN, H_WSV_VARSET_BETWEEN, W_WSV_BOF, W_WSV_EOF messages'])
prop('C06', 'Preprocessor directives are followed or reported, and including always ends',
 'Each #include or #tryinclude whose file exists (resolved against the directory of the including file, with surrounding double quotes or angle brackets removed) is read in place; a missing file is reported for #include and ignored for #tryinclude, and the rest of the configuration is still linted. '
 '#exec is reported and never run; malformed directives, mismatched quotes and odd separators are reported on exactly that line. '
 'Files that include each other (or themselves) never make the linter loop forever or exhaust memory.',
 ['inputs', 'configurations'], 'all directive spellings, all file sets including missing files and include cycles',
 'Tests have one include file; quoting forms, missing files in nested directories and cycles of any length are unbounded.',
 [A+'config.py', A+'file.py'], [('directive parser', A+'config.py ConfigParser.preprocessor'), ('file stack', A+'file.py BinFileReader.include')],
 ['FileConfigParser iteration', 'W_PP_*, E_CONF_BAD_LINE, W_WSH_CTRL messages', 'files opened'])
prop('C07', 'Priorities are numbered as Asterisk numbers them',
 'For every sequence of dialplan lines: an explicit number is taken as is, "n" is one more than the priority of the last numbered dialplan line (also one left out as a duplicate) anywhere above it (and an error when there is none), "same" uses the pattern of the previous accepted line of that context (an error when there is none), and priorities that are not "n", "hint" or a positive decimal number are errors that leave everything else untouched. '
 'A bad-order warning is given exactly when a numbered priority above 1 does not follow its direct predecessor (or repeat it) for that pattern, or when "n" continues a different pattern than the previous line or opens a (re)opened context.',
 ['inputs', 'histories'], 'all sequences of exten/same lines with any patterns, priorities and context switches',
 'Numbering is carried across lines, patterns and contexts; tests have a few fixed dialplans.',
 [A+'dialplan.py'], [('numbering', A+'dialplan.py DialplanContext.add'), ('line parsing', A+'dialplan.py DialplanVarset.from_varset')],
 ['dialplan-show output', 'E_DP_PRIO_*, E_DP_PAT_MISSING, W_DP_PRIO_BADORDER messages'])
prop('C08', 'Contexts merge by name; [general] and [globals] are kept apart and placed right',
 'All lines under contexts of the same name end up in one context at the position of its first header, in file order, and contexts are shown in order of first appearance. '
 '[general] and [globals] never become dialplan contexts; a hint is given exactly when [general] is not the first or [globals] not the second context (or they are absent from a dialplan with contexts), and a second one of either is reported with the place of the first. '
 'Inside other contexts only exten, same, include, switch and ignorepat are accepted, each with "=>", everything else being reported; other keys are reported as unknown only.',
 ['inputs', 'histories'], 'all sequences of context headers and settings, any repetition and order',
 'The guarantees concern all orders and repetitions of headers; tests use at most a couple of contexts.',
 [A+'dialplan.py', A+'configobj.py'], [('merging', A+'dialplan.py DialplanAggregator.on_dialplancontext'), ('general/globals', A+'dialplan.py Dialplan.add_general/add_globals/on_complete')],
 ['dialplan-show output', 'parsed general/globals settings', 'H_DP_*, W_CONF_CTX_DUPE, E_DP_GLOBALS_DUPE, E_CONF_KEY_INVALID, I_NOTIMPL_* messages'])
prop('C09', 'Duplicate priorities and labels are always found and the first one wins',
 'Within one context (however many times it is reopened), a line whose priority was already taken for an equivalent pattern is reported with the place of the earlier line and is left out of the dialplan; a label already used for an equivalent pattern is reported the same way and removed from the later line, which stays. '
 'Patterns are equivalent exactly when their canonical forms are equal, and nothing else is ever reported as a duplicate.',
 ['inputs', 'histories'], 'all dialplans: any spelling of patterns, any order of priorities and labels, any reopening of contexts',
 'It is a relation between any two lines of a file through pattern equivalence; tests try one or two pairs.',
 [A+'dialplan.py', A+'pattern.py'], [('pattern cache', A+'dialplan.py DialplanContext.add')],
 ['dialplan-show output', 'E_DP_PRIO_DUPE, E_DP_LABEL_DUPE messages and their previous place'])
prop('C10', 'dialplan-show prints every accepted line once, in Asterisk order',
 'For every dialplan the output lists the contexts (reversed on request), in each context every accepted line exactly once with its pattern, number, label and application text, grouped by pattern in the order Asterisk matches them and in acceptance order within a pattern, then the includes in file order. '
 'That pattern order is a total order independent of the order of the input: literal extensions before patterns, then per position smaller sets before larger ones (by first character when of equal size), then ".", then "!", then the end of the pattern.',
 ['inputs'], 'all dialplans and all sets of patterns',
 'Sorting is over all pattern pairs and the output is a permutation of unbounded input; the test compares two fixed files.',
 [A+'dialplan.py', A+'pattern.py', A+'commands/dialplan-show.py'], [('ordering', A+'pattern.py Pattern.parse/__lt__'), ('output', A+'dialplan.py Dialplan.format_as_dialplan_show')],
 ['stdout of dialplan-show', 'format_as_dialplan_show'])
prop('C11', 'Canonical pattern forms are unique, stable and mean the same',
 'For every pattern over digits, letters, "*", "#", "+", dashes, X/Z/N, ".", "!" and bracket sets of those (a set of nothing but dashes aside): the canonical form matches exactly the same numbers, is itself reported as canonical, and two patterns have the same canonical form exactly when they have the same sequence of elements (a non-pattern being equal to a pattern holding only literals). '
 'The non-canonical hint, naming the canonical form, is given for exactly the lines whose pattern, apart from dashes, differs from it.',
 ['inputs'], 'all pattern strings over the stated alphabet, of any length and set content',
 'Idempotence and equivalence are statements about all strings; tests check a table of examples.',
 [A+'pattern.py', A+'dialplan.py'], [('canonical form', A+'pattern.py Pattern.canonical_pattern/is_canonical')],
 ['Pattern.canonical_pattern, is_canonical, equality', 'H_PAT_NON_CANONICAL messages'])
prop('C12', 'Pattern matching accepts exactly the numbers Asterisk would accept',
 'A pattern accepts a number (dashes ignored) exactly when each element accepts the character at its position and the number ends with the pattern, where "." accepts any non-empty rest, "!" any rest, X/Z/N and sets accept their members and other characters only themselves; a literal extension accepts only itself. '
 'The example number used for relative gotos is accepted by the pattern it stands for (when the pattern accepts anything at all), and malformed patterns (an unterminated or empty set, nothing after "_") are reported instead of being given a meaning.',
 ['inputs'], 'all pairs of patterns and numbers',
 'It is a language-membership relation over all pairs of strings; tests check a few gotos.',
 [A+'pattern.py'], [('matching', A+'pattern.py Pattern.matches_extension'), ('example', A+'pattern.py Pattern.example')],
 ['goto diagnostics of dialplan-check', 'Pattern.matches_extension'])
prop('C13', 'A goto is reported exactly when its destination cannot exist',
 'After the whole dialplan is read, each Goto/GotoIf/Gosub/GosubIf destination of an accepted line (also inside ExecIf) with a fixed context, extension and priority or label is accepted exactly when the context exists and it, or a context it includes (directly or through others, in any include graph, cycles too), holds a line whose pattern accepts the extension with that priority or label, or for a numeric priority priority 1 of the "i" extension; otherwise it is reported at the line of the goto, as missing context or as missing extension. '
 'Omitted context and extension mean those of the calling line; with a variable context or extension only the label is checked (in the whole dialplan, or in that context and those it includes); other variable parts are never reported unless their fixed text cannot match.',
 ['inputs', 'histories'], 'all dialplans, include graphs and goto destinations, wherever the target is defined relative to the goto',
 'It is reachability over an arbitrary context graph combined with pattern matching; tests use a few small dialplans.',
 [A+'dialplan.py', A+'app/vall/builtin.py', A+'app/vall/app_stack.py'], [('destination walk', A+'dialplan.py Dialplan.walk_jump_destinations/DialplanContext.match_pattern'), ('collection', A+'dialplan.py DialplanContext.add'), ('goto parsing', A+'app/vall/builtin.py Goto')],
 ['E_DP_GOTO_*, W_DP_GOTO_CONTEXT_NOEXTEN messages of dialplan-check'])
prop('C14', 'Application arguments are split as Asterisk splits them and then checked',
 'For every argument string the split at the delimiter honours parentheses, square brackets, double quotes and backslashes exactly as Asterisk does, variables counting as opaque characters, and joining the raw parts with the delimiter gives the original back. '
 'Too few or too many arguments, unknown or repeated option letters, a pipe used as delimiter, whitespace around the application name, missing parentheses and an empty name are each reported exactly when they occur.',
 ['inputs'], 'all argument strings and all applications with declared arguments',
 'The splitter is a state machine over all strings; tests have a dozen examples.',
 [A+'app/base.py', A+'application.py'], [('splitter', A+'app/base.py AppBase.separate_args'), ('argument checks', A+'app/base.py mixins'), ('application line', A+'application.py App.split_app_data')],
 ['AppBase.separate_args', 'E_APP_ARG_*, E_APP_WSH, W_APP_* messages'])
prop('C15', 'Conditional applications are judged by their condition and branches',
 'For every argument of GotoIf, GosubIf, ExecIf, GotoIfTime and ExecIfTime: the condition is the part before the first unprotected "?", the branches are separated by the first ":" outside brackets and parentheses, and a missing "?", an empty condition, extra "?" parts and, for the first three, a condition with any constant text other than whitespace around it are each reported exactly when they occur. '
 'For GotoIf, GosubIf and ExecIf exactly the branches that are given are followed: their destinations are checked as gotos and, for ExecIf, their application, unless its name holds a variable, is checked as if it stood on a line of its own.',
 ['inputs'], 'all conditions and branches with any quoting, nesting and variables',
 'The branches combine splitting, variables and gotos over all strings; tests cover a handful of GotoIf forms.',
 [A+'app/base.py', A+'app/vall/builtin.py', A+'app/vall/app_exec.py', A+'app/vall/app_stack.py'], [('if-style split', A+'app/base.py IfStyleApp/VarCondIfStyleApp')],
 ['E_APP_ARG_IF*, E_APP_ARG_FEW/MANY and goto messages'])
prop('C16', 'Variable references are parsed faithfully and each use is accounted for',
 'For every application data string: each ${...} and $[...] at any depth is recognised, anything else stays literal, and writing the parsed form out again gives back the original text (numbers in slices normalised; parts reported as faulty left out); an unterminated reference is reported as a parse error and the data is then taken as plain text. '
 'Every plain variable name is counted once per use and reported when it has characters outside letters, digits and underscore; bad slices, missing parentheses, text after a function call and computed function names are reported exactly when present.',
 ['inputs'], 'all strings with any nesting of variables, slices, functions and expressions',
 'It is a recursive grammar over all strings; tests show some dozen shapes.',
 [A+'varfun.py', A+'variable.py', A+'function.py', A+'expression.py'], [('parser', A+'varfun.py VarLoader.parse_variables'), ('writing out', A+'variable.py Var.__str__')],
 ['VarLoader.parse_variables and str()', 'ident-scan -v variable counts', 'E_VAR_*, E_FUNC_*, W_FUNC_DYNAMIC, E_APP_PARSE_ERROR messages'])
prop('C17', 'Applications and functions are known by exact name, version and module',
 'An application or function is accepted silently exactly when its name, in the right case, is in the catalogue of the selected Asterisk version; a wrong case is reported with the proper spelling, an unknown name is reported as missing, each time it is used, and after any history of other names. '
 'modules-show lists exactly the catalogue modules whose applications or functions the dialplan uses, with the used names under them, and exactly the unknown names as warnings, exiting 1 when there are any.',
 ['inputs', 'configurations', 'histories'], 'all names in all spellings, the versions v11, v13 and all, and any sequence of uses',
 'The catalogue has some 250 applications and 100 functions per version, and lookups leave state behind; tests check a few names once.',
 [A+'application.py', A+'varfun.py', A+'version.py', A+'app/', A+'func/', A+'commands/modules-show.py'], [('loaders', A+'application.py AppLoader, '+A+'varfun.py FuncLoader'), ('version choice', A+'version.py')],
 ['E_APP_MISSING, W_APP_BAD_CASE, E_FUNC_MISSING, E_FUNC_BAD_CASE messages', 'stdout and exit status of modules-show'])
prop('C18', 'func_odbc.conf is checked key by key and its functions become known',
 'For every func_odbc.conf each section that has a read or write statement makes exactly the function <prefix or ODBC>_<name> known to the dialplan read after it, a section without one is reported and does not; the first of a repeated key counts and the repetition is reported. '
 'Unknown keys, keys out of the fixed order, arrows instead of equals signs, badly formed section names, legacy keys and trailing semicolons are each reported on exactly their line.',
 ['inputs', 'histories'], 'all sequences of sections and keys, followed by any dialplan using the functions',
 'Key order and duplicates are relations over all key sequences; the repository has no func_odbc tests at all.',
 [A+'func_odbc.py', A+'mainutil.py'], [('section checks', A+'func_odbc.py OdbcFunction'), ('registration', A+'func_odbc.py OdbcFunction.finalize_register'), ('autoload', A+'mainutil.py load_func_odbc_functions')],
 ['E_ODBC_*, W_ODBC_*, E_CONF_KEY_*, W_CONF_KEY_LATE, H_CONF_HAS_ARROW messages', 'E_FUNC_MISSING for the dialplan', 'func_odbc-check'])
prop('C19', 'What is reported, muted and returned as exit status agree',
 'Each finding is printed on stderr once as "<file>:<line> <class>: <text>" unless its class is ignored, and dialplan-check and func_odbc-check exit 1 exactly when at least one finding was printed, else 0. '
 'ALINT_IGNORE is a comma separated list; an entry ignores the class of exactly that name, or, when it ends in an underscore, all classes starting with it; ignoring never changes any other finding, and dialplan-show, modules-show and ident-scan print no findings.',
 ['inputs', 'configurations'], 'all inputs and all values of ALINT_IGNORE',
 'It relates two runs and the environment to the exit status; the tests mute all output and never run the commands.',
 [A+'defines.py', A+'commands/'], [('muting', A+'defines.py MessageDefManager'), ('exit status', A+'commands/dialplan-check.py, '+A+'commands/func_odbc-check.py')],
 ['stderr, stdout and exit status of the commands'])
prop('C20', 'Every input gets a report: no crash, no hang, no silent stop',
 'For every content of the given files (nested at most some 100 levels deep), dialplan-check, dialplan-show, modules-show, ident-scan -v and func_odbc-check finish in time bounded by the size of the input and produce their report; they never end in an internal error, however malformed the input. '
 'What is reported for the lines above a malformed line does not depend on it, and the lines below are still checked.',
 ['inputs', 'programs'], 'all byte strings as configuration, in all commands',
 'Tests feed fixed, mostly well-formed input; crashes hide behind rare combinations of malformed constructs.',
 [A], [('error reporting instead of raising', A+'config.py, '+A+'dialplan.py, '+A+'varfun.py, '+A+'app/')],
 ['exit status, stdout and stderr of every command'])
prop('C21', 'Rewriting tools change only the lines at issue, all or nothing',
 'After a run of a rewriting tool every file is, line for line, the original with exactly the lines at issue replaced (the first issue of each line) (keeping their terminators, comments and the rest of the line), the same permissions and owner, and a symbolic link stays a link with its target rewritten; files without issues are not touched, and nothing is written unless the user answers "y". '
 'If the run fails at any point, each file is still either completely the old or completely the new version (a file with an issue that cannot be put right stays old and fails the run), and no temporary file is left behind by a failed edit.',
 ['inputs', 'crash_points', 'fault_sequences'], 'all files, sets of issues, link layouts, answers, and failures at any step of the rewrite',
 'There are no tests of the rewriting tools; atomicity concerns every interruption point.',
 [A+'helper/mutator.py', 'contrib/make_patterns_canonical.py', 'contrib/convert_dp_104_to_1100.py'], [('write to temporary file, then rename', A+'helper/mutator.py FileMutatorBase.process_file')],
 ['file contents, modes and links before and after', 'directory listings'])
prop('C22', 'A run never depends on earlier runs or on the order of equal work',
 'Linting the same files gives the same findings, output and exit status every time, independent of hash seeds and directory order. '
 'In the web service the answer to a request depends only on that request, not on any earlier request, including ones that failed, and messages of one request never appear in another.',
 ['histories', 'schedules'], 'all sequences of requests and runs, including failing ones',
 'It is about sequences of runs in one process; each test resets the global state and looks at one run.',
 [A+'defines.py', A+'cls.py', 'web/wsgi.py', A+'app/vall/builtin.py'], [('global state', A+'cls.py Singleton, '+A+'defines.py MessageDefManager'), ('request handling', 'web/wsgi.py DialplanCheck')],
 ['responses of the web application', 'outputs of repeated runs'])
prop('C23', 'ident-scan lists every identifier with its uses and pairs up lookalikes',
 'With -v every context, every label in use and every variable, with its number of uses and of files, is listed exactly once in case-insensitive order. '
 'The similarity report names, symmetrically, exactly the identifiers that are neighbours by name or by length-then-name and differ by at most two edits ignoring case (and by less than their length minus one), leaving out ARGn pairs and pure upper/lower-case twins, and the exit status is 1 exactly when it names any.',
 ['inputs'], 'all dialplans and sets of identifiers',
 'There are no tests of ident-scan; the relation is over all pairs of identifiers.',
 [A+'commands/ident-scan.py', A+'varfun.py'], [('listing and pairing', A+'commands/ident-scan.py Main')],
 ['stdout and exit status of ident-scan'])
prop('C24', 'Commands are found by name, the user directory first, and return their status',
 'The first argument that is not an option selects the command; a file of that name in ~/.asterisklint overrides the built-in one, any name that is not a plain lower-case command name or has no entry point is refused with exit status 1 and nothing is run, and otherwise the status of the command is the status of the program (1 for a name that no file has). '
 '"ls" lists every available command exactly once, including broken ones with their error, and runs none of them.',
 ['configurations', 'inputs'], 'all argument lists and all contents of the command directories',
 'There are no tests of command dispatch; it ranges over argument lists and directory contents.',
 [A+'main.py', 'scripts/asterisklint'], [('dispatch', A+'main.py main/load_command/list_commands')],
 ['stdout, stderr, exit status and side effects of scripts/asterisklint'])
prop('C25', 'Unbalanced quotes and brackets are reported, balanced ones never',
 'For every application without declared arguments, every Set assignment and every function call, a balance warning is given exactly when the data, with variables counting as opaque, has an unpaired quote or a bracket, brace or parenthesis that is not closed in order outside quotes. ',
 ['inputs'], 'all data strings with any nesting of quotes, brackets and variables',
 'Balance is a context-free property of all strings; tests check very few.',
 [A+'variable.py', A+'app/base.py', A+'func/base.py'], [('balance check', A+'variable.py variable_check_balance')],
 ['W_APP_BALANCE, W_FUNC_BALANCE messages'])
P[-1]['statement'] = P[-1]['statement'].strip()
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
