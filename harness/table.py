"""Which messages and outputs each property is about, and its generator."""
import cases

# property: (classes, outs, generator, quick, thorough)
LINT = {
    'C01': ([], ['read', 'conf', 'places'], cases.g01, 500, 12000),
    'C02': (['E_FILE_UTF8_BAD', 'W_FILE_CTRL_CHAR', 'W_WSH_EOL', 'W_FILE_DOS_BARELF', 'W_FILE_UNIX_CRLF',
             'W_FILE_UNIX_NOLF', 'W_FILE_DOS_EOFCRLF'], ['read', 'conf'], cases.g02, 900, 20000),
    'C03': (['W_WSH_COMMENT'], ['read', 'conf', 'general'], cases.g03, 900, 20000),
    'C04': (['E_CONF_BAD_LINE', 'E_CONF_CTX_MISSING', 'W_WSH_OBJSET', 'W_WSH_VARSET', 'W_WSH_BOL',
             'I_NOTIMPL_TEMPLATES'], ['conf', 'general'], cases.g04, 900, 20000),
    'C05': (['W_WSV_BOF', 'W_WSV_EOF', 'H_WSV_CTX_BETWEEN', 'H_WSV_VARSET_BETWEEN'], [], cases.g05, 900, 20000),
    'C06': (['W_PP_EXEC', 'W_PP_QUOTE_BAD', 'W_PP_INCLUDE_MISSING', 'E_PP_INCLUDE_LOOP', 'W_WSH_CTRL', 'W_WSH_BOL',
             'E_CONF_BAD_LINE'], ['conf', 'general'], cases.g06, 700, 16000),
    'C07': (['E_DP_PRIO_INVALID', 'E_DP_PRIO_MISSING', 'W_DP_PRIO_BADORDER', 'E_DP_PAT_MISSING', 'E_DP_LABEL_INVALID',
             'I_NOTIMPL_HINT'], ['prios'], cases.g07, 700, 16000),
    'C08': (['W_CONF_CTX_DUPE', 'E_DP_GLOBALS_DUPE', 'H_DP_GENERAL_MISPLACED', 'H_DP_GLOBALS_MISPLACED',
             'E_CONF_KEY_INVALID', 'H_CONF_NO_ARROW', 'I_NOTIMPL_SWITCH', 'I_NOTIMPL_IGNOREPAT', 'E_CONF_CTX_MISSING'],
            ['members', 'general', 'show'], cases.g08, 700, 16000),
    'C09': (['E_DP_PRIO_DUPE', 'E_DP_LABEL_DUPE'], ['ctxs'], cases.g09, 700, 16000),
    'C10': ([], ['show'], cases.g10, 600, 14000),
    'C11': (['H_PAT_NON_CANONICAL'], [], cases.g11, 500, 14000),
    'C12': (['E_DP_PAT_INVALID', 'E_DP_PAT_MISSING', 'W_DP_GOTO_CONTEXT_NOEXTEN'], [], cases.g12, 500, 14000),
    'C13': (['E_DP_GOTO_NOCONTEXT', 'E_DP_GOTO_NOLABEL', 'E_DP_GOTO_CONTEXT_NOLABEL', 'W_DP_GOTO_CONTEXT_NOEXTEN'],
            [], cases.g13, 600, 14000),
    'C14': (['E_APP_ARG_FEW', 'E_APP_ARG_MANY', 'E_APP_ARG_BADOPT', 'E_APP_ARG_DUPEOPT', 'E_APP_ARG_PIPEDELIM',
             'E_APP_WSH', 'W_APP_WSH', 'W_APP_NEED_PARENS', 'E_APP_MISSING'], [], cases.g14, 600, 14000),
    'C15': (['E_APP_ARG_IFSTYLE', 'E_APP_ARG_IFCONST', 'E_APP_ARG_IFEMPTY', 'E_APP_ARG_FEW', 'E_APP_ARG_MANY',
             'E_DP_GOTO_NOCONTEXT', 'E_DP_GOTO_NOLABEL', 'E_DP_GOTO_CONTEXT_NOLABEL', 'W_DP_GOTO_CONTEXT_NOEXTEN',
             'E_APP_MISSING', 'W_APP_BAD_CASE', 'W_APP_NEED_PARENS', 'E_APP_WSH', 'W_APP_WSH', 'E_ASSIGN_EMPTY',
             'E_ASSIGN_NO_EQUALS'], [], cases.g15, 600, 14000),
    'C16': (['E_APP_PARSE_ERROR', 'E_VAR_BAD_TOKENS', 'E_VAR_SUBSTR_ARGS', 'E_VAR_SUBSTR_START', 'E_VAR_SUBSTR_LENGTH',
             'E_FUNC_PARENS', 'E_FUNC_TAIL', 'W_FUNC_DYNAMIC'], ['vars'], cases.g16, 600, 14000),
    'C17': (['E_APP_MISSING', 'W_APP_BAD_CASE', 'E_FUNC_MISSING', 'E_FUNC_BAD_CASE'], [], cases.g17, 500, 12000),
    'C18': (['E_ODBC_NOSQL', 'W_ODBC_BADTOKENS', 'W_ODBC_LEGACY', 'W_ODBC_TAILSEMI', 'E_CONF_KEY_INVALID', 'E_CONF_KEY_DUPE',
             'W_CONF_KEY_LATE', 'H_CONF_HAS_ARROW', 'E_FUNC_MISSING', 'E_FUNC_BAD_CASE', 'E_CONF_CTX_MISSING'],
            ['conf'], cases.g18, 700, 16000),
    'C20': ([], [], cases.g20, 900, 25000),
    'C26': (['*'], ['read', 'conf', 'ctxs', 'general'], cases.g26, 800, 18000),
    'C25': (['W_APP_BALANCE', 'W_FUNC_BALANCE'], [], cases.g25, 600, 14000),
}
# the random inputs of these are checked against the statements of Props as well
RESTATED = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C13', 'C18', 'C26'}
