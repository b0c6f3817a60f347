----------------------------- MODULE Catalogue -----------------------------
(* The applications and functions of each Asterisk version: name, module and
   the special argument check ("plain" if none).  Written by
   tools/mkcatalogue.py from the reviewed tree and frozen.                   *)
EXTENDS Text

AppList_v11 == <<
  <<"AddQueueMember", "app_queue", "plain">>,
  <<"AGI", "res_agi", "plain">>,
  <<"Answer", "<builtin>", "plain">>,
  <<"Authenticate", "app_authenticate", "plain">>,
  <<"Background", "<builtin>", "Background">>,
  <<"Bridge", "<builtin>", "plain">>,
  <<"Busy", "<builtin>", "plain">>,
  <<"CELGenUserEvent", "app_celgenuserevent", "plain">>,
  <<"ChanIsAvail", "app_chanisavail", "plain">>,
  <<"ChannelRedirect", "app_channelredirect", "plain">>,
  <<"ChanSpy", "app_chanspy", "plain">>,
  <<"ConfBridge", "app_confbridge", "plain">>,
  <<"Congestion", "<builtin>", "plain">>,
  <<"ContinueWhile", "app_while", "plain">>,
  <<"ControlPlayback", "app_controlplayback", "plain">>,
  <<"DateTime", "app_sayunixtime", "plain">>,
  <<"DBdeltree", "app_db", "plain">>,
  <<"DeadAGI", "res_agi", "plain">>,
  <<"Dial", "app_dial", "plain">>,
  <<"Directory", "app_directory", "plain">>,
  <<"DumpChan", "app_dumpchan", "plain">>,
  <<"EAGI", "res_agi", "plain">>,
  <<"Echo", "app_echo", "plain">>,
  <<"EndWhile", "app_while", "plain">>,
  <<"Exec", "app_exec", "plain">>,
  <<"ExecIf", "app_exec", "ExecIf">>,
  <<"ExecIfTime", "<builtin>", "ExecIfTime">>,
  <<"ExitWhile", "app_while", "plain">>,
  <<"ExtenSpy", "app_chanspy", "plain">>,
  <<"FollowMe", "app_followme", "plain">>,
  <<"ForkCDR", "app_forkcdr", "plain">>,
  <<"Gosub", "app_stack", "Gosub">>,
  <<"GosubIf", "app_stack", "GosubIf">>,
  <<"Goto", "<builtin>", "Goto">>,
  <<"GotoIf", "<builtin>", "GotoIf">>,
  <<"GotoIfTime", "<builtin>", "GotoIfTime">>,
  <<"Hangup", "<builtin>", "plain">>,
  <<"ImportVar", "<builtin>", "plain">>,
  <<"Log", "app_verbose", "plain">>,
  <<"Macro", "app_macro", "plain">>,
  <<"MacroExclusive", "app_macro", "plain">>,
  <<"MacroExit", "app_macro", "plain">>,
  <<"MacroIf", "app_macro", "plain">>,
  <<"MailboxExists", "app_voicemail", "plain">>,
  <<"MeetMe", "app_meetme", "plain">>,
  <<"MeetMeAdmin", "app_meetme", "plain">>,
  <<"MeetMeChannelAdmin", "app_meetme", "plain">>,
  <<"MeetMeCount", "app_meetme", "plain">>,
  <<"Milliwatt", "app_milliwatt", "Milliwatt">>,
  <<"MixMonitor", "app_mixmonitor", "plain">>,
  <<"MusicOnHold", "res_musiconhold", "plain">>,
  <<"MYSQL", "app_mysql", "plain">>,
  <<"NoCDR", "app_cdr", "plain">>,
  <<"NoOp", "<builtin>", "plain">>,
  <<"ODBCFinish", "func_odbc", "plain">>,
  <<"Originate", "app_originate", "Originate">>,
  <<"Page", "app_page", "plain">>,
  <<"PauseQueueMember", "app_queue", "plain">>,
  <<"Pickup", "app_directed_pickup", "plain">>,
  <<"PickupChan", "app_directed_pickup", "plain">>,
  <<"PickupOld1v4", "app_directed_pickup", "plain">>,
  <<"Playback", "app_playback", "plain">>,
  <<"PlayTones", "app_playtones", "plain">>,
  <<"Proceeding", "<builtin>", "plain">>,
  <<"Progress", "<builtin>", "plain">>,
  <<"Queue", "app_queue", "plain">>,
  <<"QueueLog", "app_queue", "plain">>,
  <<"Read", "app_read", "plain">>,
  <<"ReceiveFAX", "res_fax", "plain">>,
  <<"Record", "app_record", "plain">>,
  <<"RemoveQueueMember", "app_queue", "plain">>,
  <<"ResetCDR", "<builtin>", "plain">>,
  <<"RetryDial", "app_dial", "plain">>,
  <<"Return", "app_stack", "plain">>,
  <<"Ringing", "<builtin>", "plain">>,
  <<"SayAlpha", "<builtin>", "plain">>,
  <<"SayDigits", "<builtin>", "plain">>,
  <<"SayNumber", "<builtin>", "plain">>,
  <<"SayPhonetic", "<builtin>", "plain">>,
  <<"SayUnixTime", "app_sayunixtime", "plain">>,
  <<"SendDTMF", "app_senddtmf", "plain">>,
  <<"SendFAX", "res_fax", "plain">>,
  <<"Set", "<builtin>", "Set">>,
  <<"SetAMAFlags", "<builtin>", "plain">>,
  <<"SetCallerID", "app_setcallerid", "plain">>,
  <<"SetCallerPres", "app_setcallerid", "plain">>,
  <<"SetGlobalVar", "<builtin>", "plain">>,
  <<"SetMusicOnHold", "res_musiconhold", "plain">>,
  <<"SIPAddHeader", "chan_sip", "plain">>,
  <<"SIPDtmfMode", "chan_sip", "plain">>,
  <<"SIPRemoveHeader", "chan_sip", "plain">>,
  <<"SLAStation", "app_meetme", "plain">>,
  <<"SLATrunk", "app_meetme", "plain">>,
  <<"SoftHangup", "app_softhangup", "plain">>,
  <<"StackPop", "app_stack", "plain">>,
  <<"StartMusicOnHold", "res_musiconhold", "plain">>,
  <<"StopMixMonitor", "app_mixmonitor", "plain">>,
  <<"StopMusicOnHold", "res_musiconhold", "plain">>,
  <<"StopPlayTones", "app_playtones", "plain">>,
  <<"System", "app_system", "plain">>,
  <<"TryExec", "app_exec", "plain">>,
  <<"TrySystem", "app_system", "plain">>,
  <<"Unknown", "unknown", "plain">>,
  <<"UnpauseQueueMember", "app_queue", "plain">>,
  <<"UserEvent", "app_userevent", "plain">>,
  <<"Verbose", "app_verbose", "plain">>,
  <<"VMAuthenticate", "app_voicemail", "plain">>,
  <<"VMSayName", "app_voicemail", "plain">>,
  <<"VoiceMail", "app_voicemail", "VoiceMail">>,
  <<"VoiceMailMain", "app_voicemail", "plain">>,
  <<"VoiceMailPlayMsg", "app_voicemail", "plain">>,
  <<"Wait", "<builtin>", "plain">>,
  <<"WaitExten", "<builtin>", "plain">>,
  <<"WaitMusicOnHold", "res_musiconhold", "plain">>,
  <<"WaitUntil", "app_waituntil", "plain">>,
  <<"While", "app_while", "plain">>>>

FuncList_v11 == <<
  <<"AMI_CLIENT", "<builtin>", "plain">>,
  <<"ARRAY", "func_strings", "plain">>,
  <<"AUDIOHOOK_INHERIT", "func_audiohookinherit", "AUDIOHOOK_INHERIT">>,
  <<"BASE64_DECODE", "func_base64", "plain">>,
  <<"BASE64_ENCODE", "func_base64", "plain">>,
  <<"CALLERID", "func_callerid", "plain">>,
  <<"CALLERPRES", "func_callerid", "plain">>,
  <<"CDR", "func_cdr", "plain">>,
  <<"CHANNEL", "func_channel", "plain">>,
  <<"CHANNELS", "func_channel", "plain">>,
  <<"CHECKSIPDOMAIN", "chan_sip", "plain">>,
  <<"CONFBRIDGE", "app_confbridge", "plain">>,
  <<"CONFBRIDGE_INFO", "app_confbridge", "plain">>,
  <<"CONNECTEDLINE", "func_callerid", "plain">>,
  <<"CSV_QUOTE", "func_strings", "plain">>,
  <<"CURL", "func_curl", "plain">>,
  <<"CURLOPT", "func_curl", "plain">>,
  <<"CUT", "func_cut", "plain">>,
  <<"DB", "func_db", "plain">>,
  <<"DB_DELETE", "func_db", "plain">>,
  <<"DB_EXISTS", "func_db", "plain">>,
  <<"DB_KEYS", "func_db", "plain">>,
  <<"DEC", "func_math", "DEC">>,
  <<"DEVICE_STATE", "func_devstate", "plain">>,
  <<"DIALGROUP", "func_dialgroup", "plain">>,
  <<"DIALPLAN_EXISTS", "func_dialplan", "plain">>,
  <<"ENUMLOOKUP", "func_enum", "plain">>,
  <<"ENUMQUERY", "func_enum", "plain">>,
  <<"ENUMRESULT", "func_enum", "plain">>,
  <<"ENV", "func_env", "plain">>,
  <<"EVAL", "func_strings", "plain">>,
  <<"EXCEPTION", "<builtin>", "plain">>,
  <<"EXISTS", "func_logic", "plain">>,
  <<"FAXOPT", "res_fax", "plain">>,
  <<"FEATURE", "<builtin>", "plain">>,
  <<"FEATUREMAP", "<builtin>", "plain">>,
  <<"FIELDNUM", "func_strings", "plain">>,
  <<"FIELDQTY", "func_strings", "plain">>,
  <<"FILE", "func_env", "plain">>,
  <<"FILE_COUNT_LINE", "func_env", "plain">>,
  <<"FILE_FORMAT", "func_env", "plain">>,
  <<"FILTER", "func_strings", "plain">>,
  <<"GLOBAL", "func_global", "plain">>,
  <<"GROUP", "func_groupcount", "plain">>,
  <<"GROUP_COUNT", "func_groupcount", "plain">>,
  <<"GROUP_LIST", "func_groupcount", "plain">>,
  <<"GROUP_MATCH_COUNT", "func_groupcount", "plain">>,
  <<"HASH", "func_strings", "plain">>,
  <<"HASHKEYS", "func_strings", "plain">>,
  <<"HINT", "func_devstate", "plain">>,
  <<"IF", "func_logic", "plain">>,
  <<"IFTIME", "func_logic", "plain">>,
  <<"IMPORT", "func_logic", "plain">>,
  <<"INC", "func_math", "INC">>,
  <<"ISNULL", "func_logic", "plain">>,
  <<"KEYPADHASH", "func_strings", "plain">>,
  <<"LEN", "func_strings", "plain">>,
  <<"LISTFILTER", "func_strings", "plain">>,
  <<"LOCAL", "app_stack", "plain">>,
  <<"LOCAL_PEEK", "app_stack", "plain">>,
  <<"MASTER_CHANNEL", "func_channel", "plain">>,
  <<"MATH", "func_math", "plain">>,
  <<"MD5", "func_md5", "plain">>,
  <<"MESSAGE", "<builtin>", "plain">>,
  <<"MESSAGE_DATA", "<builtin>", "plain">>,
  <<"ODBC_FETCH", "func_odbc", "plain">>,
  <<"PASSTHRU", "func_strings", "plain">>,
  <<"POP", "func_strings", "plain">>,
  <<"PUSH", "func_strings", "plain">>,
  <<"QUEUE_EXISTS", "app_queue", "plain">>,
  <<"QUEUE_MEMBER", "app_queue", "plain">>,
  <<"QUEUE_MEMBER_COUNT", "app_queue", "plain">>,
  <<"QUEUE_MEMBER_LIST", "app_queue", "plain">>,
  <<"QUEUE_MEMBER_PENALTY", "app_queue", "plain">>,
  <<"QUEUE_VARIABLES", "app_queue", "plain">>,
  <<"QUEUE_WAITING_COUNT", "app_queue", "plain">>,
  <<"QUOTE", "func_strings", "plain">>,
  <<"RAND", "func_rand", "plain">>,
  <<"REDIRECTING", "func_callerid", "plain">>,
  <<"REGEX", "func_strings", "plain">>,
  <<"REPLACE", "func_strings", "plain">>,
  <<"SET", "func_logic", "SET">>,
  <<"SHARED", "func_global", "plain">>,
  <<"SHELL", "func_shell", "plain">>,
  <<"SHIFT", "func_strings", "plain">>,
  <<"SIP_HEADER", "chan_sip", "plain">>,
  <<"SIPCHANINFO", "chan_sip", "plain">>,
  <<"SIPPEER", "chan_sip", "plain">>,
  <<"SORT", "func_cut", "plain">>,
  <<"SQL_ESC", "func_odbc", "plain">>,
  <<"STACK_PEEK", "app_stack", "plain">>,
  <<"STAT", "func_env", "plain">>,
  <<"STRFTIME", "func_strings", "plain">>,
  <<"STRPTIME", "func_strings", "plain">>,
  <<"STRREPLACE", "func_strings", "plain">>,
  <<"TESTTIME", "<builtin>", "plain">>,
  <<"TIMEOUT", "func_timeout", "plain">>,
  <<"TOLOWER", "func_strings", "plain">>,
  <<"TOUPPER", "func_strings", "plain">>,
  <<"TXTCIDNAME", "func_enum", "plain">>,
  <<"UNKNOWN", "unknown", "plain">>,
  <<"UNSHIFT", "func_strings", "plain">>,
  <<"URIDECODE", "func_uri", "plain">>,
  <<"URIENCODE", "func_uri", "plain">>,
  <<"VALID_EXTEN", "func_dialplan", "plain">>,
  <<"VOLUME", "func_volume", "plain">>>>

AppList_v13 == <<
  <<"AddQueueMember", "app_queue", "plain">>,
  <<"AgentLogin", "app_agent_pool", "plain">>,
  <<"AgentRequest", "app_agent_pool", "plain">>,
  <<"AGI", "res_agi", "plain">>,
  <<"Answer", "<builtin>", "plain">>,
  <<"Authenticate", "app_authenticate", "plain">>,
  <<"Background", "<builtin>", "Background">>,
  <<"Bridge", "<builtin>", "plain">>,
  <<"BridgeAdd", "app_bridgeaddchan", "plain">>,
  <<"BridgeWait", "app_bridgewait", "plain">>,
  <<"Busy", "<builtin>", "plain">>,
  <<"CELGenUserEvent", "app_celgenuserevent", "plain">>,
  <<"ChanIsAvail", "app_chanisavail", "plain">>,
  <<"ChannelRedirect", "app_channelredirect", "plain">>,
  <<"ChanSpy", "app_chanspy", "plain">>,
  <<"ConfBridge", "app_confbridge", "plain">>,
  <<"Congestion", "<builtin>", "plain">>,
  <<"ContinueWhile", "app_while", "plain">>,
  <<"ControlPlayback", "app_controlplayback", "plain">>,
  <<"DateTime", "app_sayunixtime", "plain">>,
  <<"DBdeltree", "app_db", "plain">>,
  <<"DeadAGI", "res_agi", "plain">>,
  <<"Dial", "app_dial", "plain">>,
  <<"Directory", "app_directory", "plain">>,
  <<"DumpChan", "app_dumpchan", "plain">>,
  <<"EAGI", "res_agi", "plain">>,
  <<"Echo", "app_echo", "plain">>,
  <<"EndWhile", "app_while", "plain">>,
  <<"Exec", "app_exec", "plain">>,
  <<"ExecIf", "app_exec", "ExecIf">>,
  <<"ExecIfTime", "<builtin>", "ExecIfTime">>,
  <<"ExitWhile", "app_while", "plain">>,
  <<"ExtenSpy", "app_chanspy", "plain">>,
  <<"FollowMe", "app_followme", "plain">>,
  <<"ForkCDR", "app_forkcdr", "plain">>,
  <<"Gosub", "app_stack", "Gosub">>,
  <<"GosubIf", "app_stack", "GosubIf">>,
  <<"Goto", "<builtin>", "Goto">>,
  <<"GotoIf", "<builtin>", "GotoIf">>,
  <<"GotoIfTime", "<builtin>", "GotoIfTime">>,
  <<"Hangup", "<builtin>", "plain">>,
  <<"ImportVar", "<builtin>", "plain">>,
  <<"Log", "app_verbose", "plain">>,
  <<"Macro", "app_macro", "plain">>,
  <<"MacroExclusive", "app_macro", "plain">>,
  <<"MacroExit", "app_macro", "plain">>,
  <<"MacroIf", "app_macro", "plain">>,
  <<"MailboxExists", "app_voicemail", "plain">>,
  <<"MeetMe", "app_meetme", "plain">>,
  <<"MeetMeAdmin", "app_meetme", "plain">>,
  <<"MeetMeChannelAdmin", "app_meetme", "plain">>,
  <<"MeetMeCount", "app_meetme", "plain">>,
  <<"Milliwatt", "app_milliwatt", "Milliwatt">>,
  <<"MixMonitor", "app_mixmonitor", "plain">>,
  <<"MusicOnHold", "res_musiconhold", "plain">>,
  <<"MYSQL", "app_mysql", "plain">>,
  <<"NoCDR", "app_cdr", "plain">>,
  <<"NoOp", "<builtin>", "plain">>,
  <<"ODBCFinish", "func_odbc", "plain">>,
  <<"Originate", "app_originate", "Originate">>,
  <<"Page", "app_page", "plain">>,
  <<"PauseQueueMember", "app_queue", "plain">>,
  <<"Pickup", "app_directed_pickup", "plain">>,
  <<"PickupChan", "app_directed_pickup", "plain">>,
  <<"PickupOld1v4", "app_directed_pickup", "plain">>,
  <<"Playback", "app_playback", "plain">>,
  <<"PlayTones", "app_playtones", "plain">>,
  <<"Proceeding", "<builtin>", "plain">>,
  <<"Progress", "<builtin>", "plain">>,
  <<"Queue", "app_queue", "plain">>,
  <<"QueueLog", "app_queue", "plain">>,
  <<"Read", "app_read", "plain">>,
  <<"ReceiveFAX", "res_fax", "plain">>,
  <<"Record", "app_record", "plain">>,
  <<"RemoveQueueMember", "app_queue", "plain">>,
  <<"ResetCDR", "<builtin>", "plain">>,
  <<"RetryDial", "app_dial", "plain">>,
  <<"Return", "app_stack", "plain">>,
  <<"Ringing", "<builtin>", "plain">>,
  <<"SayAlpha", "<builtin>", "plain">>,
  <<"SayDigits", "<builtin>", "plain">>,
  <<"SayNumber", "<builtin>", "plain">>,
  <<"SayPhonetic", "<builtin>", "plain">>,
  <<"SayUnixTime", "app_sayunixtime", "plain">>,
  <<"SendDTMF", "app_senddtmf", "plain">>,
  <<"SendFAX", "res_fax", "plain">>,
  <<"Set", "<builtin>", "Set">>,
  <<"SetAMAFlags", "<builtin>", "plain">>,
  <<"SetCallerID", "app_setcallerid", "plain">>,
  <<"SetCallerPres", "app_setcallerid", "plain">>,
  <<"SetGlobalVar", "<builtin>", "plain">>,
  <<"SetMusicOnHold", "res_musiconhold", "plain">>,
  <<"SIPAddHeader", "chan_sip", "plain">>,
  <<"SIPDtmfMode", "chan_sip", "plain">>,
  <<"SIPRemoveHeader", "chan_sip", "plain">>,
  <<"SLAStation", "app_meetme", "plain">>,
  <<"SLATrunk", "app_meetme", "plain">>,
  <<"SoftHangup", "app_softhangup", "plain">>,
  <<"StackPop", "app_stack", "plain">>,
  <<"StartMusicOnHold", "res_musiconhold", "plain">>,
  <<"Stasis", "app_stasis", "plain">>,
  <<"StopMixMonitor", "app_mixmonitor", "plain">>,
  <<"StopMusicOnHold", "res_musiconhold", "plain">>,
  <<"StopPlayTones", "app_playtones", "plain">>,
  <<"System", "app_system", "plain">>,
  <<"TryExec", "app_exec", "plain">>,
  <<"TrySystem", "app_system", "plain">>,
  <<"Unknown", "unknown", "plain">>,
  <<"UnpauseQueueMember", "app_queue", "plain">>,
  <<"UserEvent", "app_userevent", "plain">>,
  <<"Verbose", "app_verbose", "plain">>,
  <<"VMAuthenticate", "app_voicemail", "plain">>,
  <<"VMSayName", "app_voicemail", "plain">>,
  <<"VoiceMail", "app_voicemail", "VoiceMail">>,
  <<"VoiceMailMain", "app_voicemail", "plain">>,
  <<"VoiceMailPlayMsg", "app_voicemail", "plain">>,
  <<"Wait", "<builtin>", "plain">>,
  <<"WaitExten", "<builtin>", "plain">>,
  <<"WaitMusicOnHold", "res_musiconhold", "plain">>,
  <<"WaitUntil", "app_waituntil", "plain">>,
  <<"While", "app_while", "plain">>>>

FuncList_v13 == <<
  <<"AMI_CLIENT", "<builtin>", "plain">>,
  <<"ARRAY", "func_strings", "plain">>,
  <<"AUDIOHOOK_INHERIT", "func_audiohookinherit", "AUDIOHOOK_INHERIT">>,
  <<"BASE64_DECODE", "func_base64", "plain">>,
  <<"BASE64_ENCODE", "func_base64", "plain">>,
  <<"CALLERID", "func_callerid", "plain">>,
  <<"CALLERPRES", "func_callerid", "plain">>,
  <<"CDR", "func_cdr", "plain">>,
  <<"CHANNEL", "func_channel", "plain">>,
  <<"CHANNELS", "func_channel", "plain">>,
  <<"CHECKSIPDOMAIN", "chan_sip", "plain">>,
  <<"CONFBRIDGE", "app_confbridge", "plain">>,
  <<"CONFBRIDGE_INFO", "app_confbridge", "plain">>,
  <<"CONNECTEDLINE", "func_callerid", "plain">>,
  <<"CSV_QUOTE", "func_strings", "plain">>,
  <<"CURL", "func_curl", "plain">>,
  <<"CURLOPT", "func_curl", "plain">>,
  <<"CUT", "func_cut", "plain">>,
  <<"DB", "func_db", "plain">>,
  <<"DB_DELETE", "func_db", "plain">>,
  <<"DB_EXISTS", "func_db", "plain">>,
  <<"DB_KEYS", "func_db", "plain">>,
  <<"DEC", "func_math", "DEC">>,
  <<"DEVICE_STATE", "func_devstate", "plain">>,
  <<"DIALGROUP", "func_dialgroup", "plain">>,
  <<"DIALPLAN_EXISTS", "func_dialplan", "plain">>,
  <<"ENUMLOOKUP", "func_enum", "plain">>,
  <<"ENUMQUERY", "func_enum", "plain">>,
  <<"ENUMRESULT", "func_enum", "plain">>,
  <<"ENV", "func_env", "plain">>,
  <<"EVAL", "func_strings", "plain">>,
  <<"EXCEPTION", "<builtin>", "plain">>,
  <<"EXISTS", "func_logic", "plain">>,
  <<"FAXOPT", "res_fax", "plain">>,
  <<"FEATURE", "<builtin>", "plain">>,
  <<"FEATUREMAP", "<builtin>", "plain">>,
  <<"FIELDNUM", "func_strings", "plain">>,
  <<"FIELDQTY", "func_strings", "plain">>,
  <<"FILE", "func_env", "plain">>,
  <<"FILE_COUNT_LINE", "func_env", "plain">>,
  <<"FILE_FORMAT", "func_env", "plain">>,
  <<"FILTER", "func_strings", "plain">>,
  <<"GLOBAL", "func_global", "plain">>,
  <<"GROUP", "func_groupcount", "plain">>,
  <<"GROUP_COUNT", "func_groupcount", "plain">>,
  <<"GROUP_LIST", "func_groupcount", "plain">>,
  <<"GROUP_MATCH_COUNT", "func_groupcount", "plain">>,
  <<"HASH", "func_strings", "plain">>,
  <<"HASHKEYS", "func_strings", "plain">>,
  <<"HINT", "func_devstate", "plain">>,
  <<"IF", "func_logic", "plain">>,
  <<"IFTIME", "func_logic", "plain">>,
  <<"IMPORT", "func_logic", "plain">>,
  <<"INC", "func_math", "INC">>,
  <<"ISNULL", "func_logic", "plain">>,
  <<"KEYPADHASH", "func_strings", "plain">>,
  <<"LEN", "func_strings", "plain">>,
  <<"LISTFILTER", "func_strings", "plain">>,
  <<"LOCAL", "app_stack", "plain">>,
  <<"LOCAL_PEEK", "app_stack", "plain">>,
  <<"MASTER_CHANNEL", "func_channel", "plain">>,
  <<"MATH", "func_math", "plain">>,
  <<"MD5", "func_md5", "plain">>,
  <<"MESSAGE", "<builtin>", "plain">>,
  <<"MESSAGE_DATA", "<builtin>", "plain">>,
  <<"ODBC_FETCH", "func_odbc", "plain">>,
  <<"PASSTHRU", "func_strings", "plain">>,
  <<"PJSIP_AOR", "func_pjsip", "plain">>,
  <<"PJSIP_CONTACT", "func_pjsip", "plain">>,
  <<"PJSIP_DIAL_CONTACTS", "chan_pjsip", "plain">>,
  <<"PJSIP_DTMF_MODE", "chan_pjsip", "plain">>,
  <<"PJSIP_ENDPOINT", "func_pjsip", "plain">>,
  <<"PJSIP_HEADER", "res_pjsip", "plain">>,
  <<"PJSIP_MEDIA_OFFER", "chan_pjsip", "plain">>,
  <<"PJSIP_MOH_PASSTHROUGH", "chan_pjsip", "plain">>,
  <<"PJSIP_PARSE_URI", "chan_pjsip", "plain">>,
  <<"PJSIP_SEND_SESSION_REFRESH", "chan_pjsip", "plain">>,
  <<"POP", "func_strings", "plain">>,
  <<"PUSH", "func_strings", "plain">>,
  <<"QUEUE_EXISTS", "app_queue", "plain">>,
  <<"QUEUE_MEMBER", "app_queue", "plain">>,
  <<"QUEUE_MEMBER_COUNT", "app_queue", "plain">>,
  <<"QUEUE_MEMBER_LIST", "app_queue", "plain">>,
  <<"QUEUE_MEMBER_PENALTY", "app_queue", "plain">>,
  <<"QUEUE_VARIABLES", "app_queue", "plain">>,
  <<"QUEUE_WAITING_COUNT", "app_queue", "plain">>,
  <<"QUOTE", "func_strings", "plain">>,
  <<"RAND", "func_rand", "plain">>,
  <<"REDIRECTING", "func_callerid", "plain">>,
  <<"REGEX", "func_strings", "plain">>,
  <<"REPLACE", "func_strings", "plain">>,
  <<"SET", "func_logic", "SET">>,
  <<"SHARED", "func_global", "plain">>,
  <<"SHELL", "func_shell", "plain">>,
  <<"SHIFT", "func_strings", "plain">>,
  <<"SIP_HEADER", "chan_sip", "plain">>,
  <<"SIPCHANINFO", "chan_sip", "plain">>,
  <<"SIPPEER", "chan_sip", "plain">>,
  <<"SORT", "func_cut", "plain">>,
  <<"SQL_ESC", "func_odbc", "plain">>,
  <<"STACK_PEEK", "app_stack", "plain">>,
  <<"STAT", "func_env", "plain">>,
  <<"STRFTIME", "func_strings", "plain">>,
  <<"STRPTIME", "func_strings", "plain">>,
  <<"STRREPLACE", "func_strings", "plain">>,
  <<"TALK_DETECT", "func_talkdetect", "plain">>,
  <<"TESTTIME", "<builtin>", "plain">>,
  <<"TIMEOUT", "func_timeout", "plain">>,
  <<"TOLOWER", "func_strings", "plain">>,
  <<"TOUPPER", "func_strings", "plain">>,
  <<"TXTCIDNAME", "func_enum", "plain">>,
  <<"UNKNOWN", "unknown", "plain">>,
  <<"UNSHIFT", "func_strings", "plain">>,
  <<"URIDECODE", "func_uri", "plain">>,
  <<"URIENCODE", "func_uri", "plain">>,
  <<"VALID_EXTEN", "func_dialplan", "plain">>,
  <<"VOLUME", "func_volume", "plain">>>>

AppList_vall == <<
  <<"AddQueueMember", "app_queue", "plain">>,
  <<"AgentLogin", "app_agent_pool", "plain">>,
  <<"AgentRequest", "app_agent_pool", "plain">>,
  <<"AGI", "res_agi", "plain">>,
  <<"Answer", "<builtin>", "plain">>,
  <<"Authenticate", "app_authenticate", "plain">>,
  <<"Background", "<builtin>", "Background">>,
  <<"Bridge", "<builtin>", "plain">>,
  <<"BridgeAdd", "app_bridgeaddchan", "plain">>,
  <<"BridgeWait", "app_bridgewait", "plain">>,
  <<"Busy", "<builtin>", "plain">>,
  <<"CELGenUserEvent", "app_celgenuserevent", "plain">>,
  <<"ChanIsAvail", "app_chanisavail", "plain">>,
  <<"ChannelRedirect", "app_channelredirect", "plain">>,
  <<"ChanSpy", "app_chanspy", "plain">>,
  <<"ConfBridge", "app_confbridge", "plain">>,
  <<"Congestion", "<builtin>", "plain">>,
  <<"ContinueWhile", "app_while", "plain">>,
  <<"ControlPlayback", "app_controlplayback", "plain">>,
  <<"DateTime", "app_sayunixtime", "plain">>,
  <<"DBdeltree", "app_db", "plain">>,
  <<"DeadAGI", "res_agi", "plain">>,
  <<"Dial", "app_dial", "plain">>,
  <<"Directory", "app_directory", "plain">>,
  <<"DumpChan", "app_dumpchan", "plain">>,
  <<"EAGI", "res_agi", "plain">>,
  <<"Echo", "app_echo", "plain">>,
  <<"EndWhile", "app_while", "plain">>,
  <<"Exec", "app_exec", "plain">>,
  <<"ExecIf", "app_exec", "ExecIf">>,
  <<"ExecIfTime", "<builtin>", "ExecIfTime">>,
  <<"ExitWhile", "app_while", "plain">>,
  <<"ExtenSpy", "app_chanspy", "plain">>,
  <<"FollowMe", "app_followme", "plain">>,
  <<"ForkCDR", "app_forkcdr", "plain">>,
  <<"Gosub", "app_stack", "Gosub">>,
  <<"GosubIf", "app_stack", "GosubIf">>,
  <<"Goto", "<builtin>", "Goto">>,
  <<"GotoIf", "<builtin>", "GotoIf">>,
  <<"GotoIfTime", "<builtin>", "GotoIfTime">>,
  <<"Hangup", "<builtin>", "plain">>,
  <<"ImportVar", "<builtin>", "plain">>,
  <<"Log", "app_verbose", "plain">>,
  <<"Macro", "app_macro", "plain">>,
  <<"MacroExclusive", "app_macro", "plain">>,
  <<"MacroExit", "app_macro", "plain">>,
  <<"MacroIf", "app_macro", "plain">>,
  <<"MailboxExists", "app_voicemail", "plain">>,
  <<"MeetMe", "app_meetme", "plain">>,
  <<"MeetMeAdmin", "app_meetme", "plain">>,
  <<"MeetMeChannelAdmin", "app_meetme", "plain">>,
  <<"MeetMeCount", "app_meetme", "plain">>,
  <<"Milliwatt", "app_milliwatt", "Milliwatt">>,
  <<"MixMonitor", "app_mixmonitor", "plain">>,
  <<"MusicOnHold", "res_musiconhold", "plain">>,
  <<"MYSQL", "app_mysql", "plain">>,
  <<"NoCDR", "app_cdr", "plain">>,
  <<"NoOp", "<builtin>", "plain">>,
  <<"ODBCFinish", "func_odbc", "plain">>,
  <<"Originate", "app_originate", "Originate">>,
  <<"Page", "app_page", "plain">>,
  <<"PauseQueueMember", "app_queue", "plain">>,
  <<"Pickup", "app_directed_pickup", "plain">>,
  <<"PickupChan", "app_directed_pickup", "plain">>,
  <<"PickupOld1v4", "app_directed_pickup", "plain">>,
  <<"Playback", "app_playback", "plain">>,
  <<"PlayTones", "app_playtones", "plain">>,
  <<"Proceeding", "<builtin>", "plain">>,
  <<"Progress", "<builtin>", "plain">>,
  <<"Queue", "app_queue", "plain">>,
  <<"QueueLog", "app_queue", "plain">>,
  <<"Read", "app_read", "plain">>,
  <<"ReceiveFAX", "res_fax", "plain">>,
  <<"Record", "app_record", "plain">>,
  <<"RemoveQueueMember", "app_queue", "plain">>,
  <<"ResetCDR", "<builtin>", "plain">>,
  <<"RetryDial", "app_dial", "plain">>,
  <<"Return", "app_stack", "plain">>,
  <<"Ringing", "<builtin>", "plain">>,
  <<"SayAlpha", "<builtin>", "plain">>,
  <<"SayDigits", "<builtin>", "plain">>,
  <<"SayNumber", "<builtin>", "plain">>,
  <<"SayPhonetic", "<builtin>", "plain">>,
  <<"SayUnixTime", "app_sayunixtime", "plain">>,
  <<"SendDTMF", "app_senddtmf", "plain">>,
  <<"SendFAX", "res_fax", "plain">>,
  <<"Set", "<builtin>", "Set">>,
  <<"SetAMAFlags", "<builtin>", "plain">>,
  <<"SetCallerID", "app_setcallerid", "plain">>,
  <<"SetCallerPres", "app_setcallerid", "plain">>,
  <<"SetGlobalVar", "<builtin>", "plain">>,
  <<"SetMusicOnHold", "res_musiconhold", "plain">>,
  <<"SIPAddHeader", "chan_sip", "plain">>,
  <<"SIPDtmfMode", "chan_sip", "plain">>,
  <<"SIPRemoveHeader", "chan_sip", "plain">>,
  <<"SLAStation", "app_meetme", "plain">>,
  <<"SLATrunk", "app_meetme", "plain">>,
  <<"SoftHangup", "app_softhangup", "plain">>,
  <<"StackPop", "app_stack", "plain">>,
  <<"StartMusicOnHold", "res_musiconhold", "plain">>,
  <<"Stasis", "app_stasis", "plain">>,
  <<"StopMixMonitor", "app_mixmonitor", "plain">>,
  <<"StopMusicOnHold", "res_musiconhold", "plain">>,
  <<"StopPlayTones", "app_playtones", "plain">>,
  <<"System", "app_system", "plain">>,
  <<"TryExec", "app_exec", "plain">>,
  <<"TrySystem", "app_system", "plain">>,
  <<"Unknown", "unknown", "plain">>,
  <<"UnpauseQueueMember", "app_queue", "plain">>,
  <<"UserEvent", "app_userevent", "plain">>,
  <<"Verbose", "app_verbose", "plain">>,
  <<"VMAuthenticate", "app_voicemail", "plain">>,
  <<"VMSayName", "app_voicemail", "plain">>,
  <<"VoiceMail", "app_voicemail", "VoiceMail">>,
  <<"VoiceMailMain", "app_voicemail", "plain">>,
  <<"VoiceMailPlayMsg", "app_voicemail", "plain">>,
  <<"Wait", "<builtin>", "plain">>,
  <<"WaitExten", "<builtin>", "plain">>,
  <<"WaitMusicOnHold", "res_musiconhold", "plain">>,
  <<"WaitUntil", "app_waituntil", "plain">>,
  <<"While", "app_while", "plain">>>>

FuncList_vall == <<
  <<"AMI_CLIENT", "<builtin>", "plain">>,
  <<"ARRAY", "func_strings", "plain">>,
  <<"AUDIOHOOK_INHERIT", "func_audiohookinherit", "AUDIOHOOK_INHERIT">>,
  <<"BASE64_DECODE", "func_base64", "plain">>,
  <<"BASE64_ENCODE", "func_base64", "plain">>,
  <<"CALLERID", "func_callerid", "plain">>,
  <<"CALLERPRES", "func_callerid", "plain">>,
  <<"CDR", "func_cdr", "plain">>,
  <<"CHANNEL", "func_channel", "plain">>,
  <<"CHANNELS", "func_channel", "plain">>,
  <<"CHECKSIPDOMAIN", "chan_sip", "plain">>,
  <<"CONFBRIDGE", "app_confbridge", "plain">>,
  <<"CONFBRIDGE_INFO", "app_confbridge", "plain">>,
  <<"CONNECTEDLINE", "func_callerid", "plain">>,
  <<"CSV_QUOTE", "func_strings", "plain">>,
  <<"CURL", "func_curl", "plain">>,
  <<"CURLOPT", "func_curl", "plain">>,
  <<"CUT", "func_cut", "plain">>,
  <<"DB", "func_db", "plain">>,
  <<"DB_DELETE", "func_db", "plain">>,
  <<"DB_EXISTS", "func_db", "plain">>,
  <<"DB_KEYS", "func_db", "plain">>,
  <<"DEC", "func_math", "DEC">>,
  <<"DEVICE_STATE", "func_devstate", "plain">>,
  <<"DIALGROUP", "func_dialgroup", "plain">>,
  <<"DIALPLAN_EXISTS", "func_dialplan", "plain">>,
  <<"ENUMLOOKUP", "func_enum", "plain">>,
  <<"ENUMQUERY", "func_enum", "plain">>,
  <<"ENUMRESULT", "func_enum", "plain">>,
  <<"ENV", "func_env", "plain">>,
  <<"EVAL", "func_strings", "plain">>,
  <<"EXCEPTION", "<builtin>", "plain">>,
  <<"EXISTS", "func_logic", "plain">>,
  <<"FAXOPT", "res_fax", "plain">>,
  <<"FEATURE", "<builtin>", "plain">>,
  <<"FEATUREMAP", "<builtin>", "plain">>,
  <<"FIELDNUM", "func_strings", "plain">>,
  <<"FIELDQTY", "func_strings", "plain">>,
  <<"FILE", "func_env", "plain">>,
  <<"FILE_COUNT_LINE", "func_env", "plain">>,
  <<"FILE_FORMAT", "func_env", "plain">>,
  <<"FILTER", "func_strings", "plain">>,
  <<"GLOBAL", "func_global", "plain">>,
  <<"GROUP", "func_groupcount", "plain">>,
  <<"GROUP_COUNT", "func_groupcount", "plain">>,
  <<"GROUP_LIST", "func_groupcount", "plain">>,
  <<"GROUP_MATCH_COUNT", "func_groupcount", "plain">>,
  <<"HASH", "func_strings", "plain">>,
  <<"HASHKEYS", "func_strings", "plain">>,
  <<"HINT", "func_devstate", "plain">>,
  <<"IF", "func_logic", "plain">>,
  <<"IFTIME", "func_logic", "plain">>,
  <<"IMPORT", "func_logic", "plain">>,
  <<"INC", "func_math", "INC">>,
  <<"ISNULL", "func_logic", "plain">>,
  <<"KEYPADHASH", "func_strings", "plain">>,
  <<"LEN", "func_strings", "plain">>,
  <<"LISTFILTER", "func_strings", "plain">>,
  <<"LOCAL", "app_stack", "plain">>,
  <<"LOCAL_PEEK", "app_stack", "plain">>,
  <<"MASTER_CHANNEL", "func_channel", "plain">>,
  <<"MATH", "func_math", "plain">>,
  <<"MD5", "func_md5", "plain">>,
  <<"MESSAGE", "<builtin>", "plain">>,
  <<"MESSAGE_DATA", "<builtin>", "plain">>,
  <<"ODBC_FETCH", "func_odbc", "plain">>,
  <<"PASSTHRU", "func_strings", "plain">>,
  <<"PJSIP_AOR", "func_pjsip", "plain">>,
  <<"PJSIP_CONTACT", "func_pjsip", "plain">>,
  <<"PJSIP_DIAL_CONTACTS", "chan_pjsip", "plain">>,
  <<"PJSIP_DTMF_MODE", "chan_pjsip", "plain">>,
  <<"PJSIP_ENDPOINT", "func_pjsip", "plain">>,
  <<"PJSIP_HEADER", "res_pjsip", "plain">>,
  <<"PJSIP_MEDIA_OFFER", "chan_pjsip", "plain">>,
  <<"PJSIP_MOH_PASSTHROUGH", "chan_pjsip", "plain">>,
  <<"PJSIP_PARSE_URI", "chan_pjsip", "plain">>,
  <<"PJSIP_SEND_SESSION_REFRESH", "chan_pjsip", "plain">>,
  <<"POP", "func_strings", "plain">>,
  <<"PUSH", "func_strings", "plain">>,
  <<"QUEUE_EXISTS", "app_queue", "plain">>,
  <<"QUEUE_MEMBER", "app_queue", "plain">>,
  <<"QUEUE_MEMBER_COUNT", "app_queue", "plain">>,
  <<"QUEUE_MEMBER_LIST", "app_queue", "plain">>,
  <<"QUEUE_MEMBER_PENALTY", "app_queue", "plain">>,
  <<"QUEUE_VARIABLES", "app_queue", "plain">>,
  <<"QUEUE_WAITING_COUNT", "app_queue", "plain">>,
  <<"QUOTE", "func_strings", "plain">>,
  <<"RAND", "func_rand", "plain">>,
  <<"REDIRECTING", "func_callerid", "plain">>,
  <<"REGEX", "func_strings", "plain">>,
  <<"REPLACE", "func_strings", "plain">>,
  <<"SET", "func_logic", "SET">>,
  <<"SHARED", "func_global", "plain">>,
  <<"SHELL", "func_shell", "plain">>,
  <<"SHIFT", "func_strings", "plain">>,
  <<"SIP_HEADER", "chan_sip", "plain">>,
  <<"SIPCHANINFO", "chan_sip", "plain">>,
  <<"SIPPEER", "chan_sip", "plain">>,
  <<"SORT", "func_cut", "plain">>,
  <<"SQL_ESC", "func_odbc", "plain">>,
  <<"STACK_PEEK", "app_stack", "plain">>,
  <<"STAT", "func_env", "plain">>,
  <<"STRFTIME", "func_strings", "plain">>,
  <<"STRPTIME", "func_strings", "plain">>,
  <<"STRREPLACE", "func_strings", "plain">>,
  <<"TALK_DETECT", "func_talkdetect", "plain">>,
  <<"TESTTIME", "<builtin>", "plain">>,
  <<"TIMEOUT", "func_timeout", "plain">>,
  <<"TOLOWER", "func_strings", "plain">>,
  <<"TOUPPER", "func_strings", "plain">>,
  <<"TXTCIDNAME", "func_enum", "plain">>,
  <<"UNKNOWN", "unknown", "plain">>,
  <<"UNSHIFT", "func_strings", "plain">>,
  <<"URIDECODE", "func_uri", "plain">>,
  <<"URIENCODE", "func_uri", "plain">>,
  <<"VALID_EXTEN", "func_dialplan", "plain">>,
  <<"VOLUME", "func_volume", "plain">>>>

(* [lower-case name -> [n: name, m: module, sp: special check]] *)
CatOf(list) == LET rows == {list[i] : i \in 1..Len(list)}
                   low == {<<Lower(S(r[1])), r>> : r \in rows}
               IN [l \in {x[1] : x \in low} |->
                     LET r == (CHOOSE x \in low : x[1] = l)[2] IN [n |-> S(r[1]), m |-> r[2], sp |-> r[3]]]
AppCat_v11 == CatOf(AppList_v11)
AppCat_v13 == CatOf(AppList_v13)
AppCat_vall == CatOf(AppList_vall)
FuncCat_v11 == CatOf(FuncList_v11)
FuncCat_v13 == CatOf(FuncList_v13)
FuncCat_vall == CatOf(FuncList_vall)
AppCat == [v \in {"v11", "v13", "vall"} |-> IF v = "v11" THEN AppCat_v11 ELSE IF v = "v13" THEN AppCat_v13 ELSE AppCat_vall]
FuncCat == [v \in {"v11", "v13", "vall"} |-> IF v = "v11" THEN FuncCat_v11 ELSE IF v = "v13" THEN FuncCat_v13 ELSE FuncCat_vall]
=============================================================================
