"""Per property: what is generated (profile), which aspects of behaviour it judges, and what makes a case non-trivial."""

CMDS = {"cmd:notify", "cmd:event", "cmd:error", "cmd:transient", "cmd:any", "cmdend"}
CORE = {"state", "status", "tokreq", "redirect", "late", "dead"}

BASE = dict(begin=3, auth=6, exchange=3, tok=5, refresh=4, due_refresh=3, show=3, revoke=2, look=2, redir_bad=1, redir_err=1, redir_ok=1, adv=3,
            advdue=2, reload=2, ep=1, failrun=1)


def ops(**kw):
    d = dict(BASE)
    d.update(kw)
    return {k: v for k, v in d.items() if v > 0}


P = {}


QUICK = 3


def prop(pid, **kw):
    kw["n"] = (kw["n"][0] * QUICK, kw["n"][1])
    P[pid] = kw


prop("C01", cats=CORE | CMDS | {"url", "reload"}, n=(560, 12000), nontrivial=["reload_kept", "reload_reset", "reload_removed"],
     profile=dict(at_once=["redirect", "exchange", "exchange2", "refresh", "token", "any", "due", "restore"] + ["reload+tok"] * 4, accounts=(1, 3), variants=(1, 3), sec_edits=2, benign_edits=1, hint=0.2, ops=ops(preempt=5, reload=9, aba=7, supersede=8, auth=9, exchange=4, dump_restore=1, bad_reload=1),
                  prefix=["auth"], len=(3, 12)))

prop("C02", cats=CORE | CMDS | {"url", "restore"}, n=(560, 12000), nontrivial=["superseded_discarded", "exchange_success", "refresh_success"],
     profile=dict(swarm=0.03, accounts=(1, 3), variants=(1, 3), answers={"ok": 5, "refused": 3, "lost": 2}, len=(2, 9),
                  ops=ops(preempt=6, supersede=14, exchange=5, tok=6, reload=3, aba=3, dump_restore=3, auth=3, advdue=3, transient=1, begin=2)))

prop("C03", cats={"redirect", "http", "tokreq", "cmd:error", "state", "status", "dead", "url"}, n=(560, 12000), nontrivial=["redir_rejected"],
     profile=dict(edge=True, many=dict(redir_bad=1), accounts=(1, 3), variants=(0, 2), https=0.2, no_https=0.4, hint=0.0, len=(3, 12), frag=0.3, ip_redirs=0.4, no_http=0.1,
                  ops=ops(many=6, preempt=2, redir_bad=16, begin=6, redir_ok=5, redir_err=2, refresh=3, reload=2, aba=1, revoke=3, restart=1, exchange=4)))

prop("C04", cats={"url", "tokreq", "state", "dead", "redirect"}, n=(560, 12000), nontrivial=["url_checked"],
     profile=dict(many=dict(begin=2, refresh=1, reload=1), manyn=(4, 10), accounts=(1, 4), variants=(0, 2), fields=0.6, hint=0.3, https=0.15, no_https=0.5, len=(3, 12),
                  ops=ops(many=4, preempt=2, begin=14, refresh=4, show=6, redir_ok=5, exchange=5, tok=5, restart=2, reload=3, revoke=3, adv=1, due_refresh=0, failrun=0)))

prop("C05", cats={"tokreq", "state", "status", "cmd:error", "cmd:log", "cmd:any", "redirect", "late", "dead", "url"}, n=(520, 12000),
     nontrivial=["exchange_success", "exchange_refused", "exchange_gave_up", "exchange_retry", "auth_error"],
     profile=dict(edge=True, swarm=0.03, verbose=[0, 0, 2], refusals_refresh=0.1, accounts=(1, 3), variants=(0, 1), answers={"ok": 4, "refused": 6, "lost": 3}, cmds={"error": 0.8, "notify": 0.5, "event": 0.5, "transient": 0.3}, len=(3, 12),
                  ops=ops(burst=1, refusals=12, preempt=3, exchange=12, tok=14, redir_err=5, ep=4, refresh=1, due_refresh=1, failrun=0, adv=4, show=3, mode=1)))

prop("C06", cats={"state", "cli", "tokreq", "url", "dead", "late"}, n=(560, 12000), nontrivial=["show_token", "show_expired", "refresh_cmd", "refresh_cmd_ongoing"],
     profile=dict(many=dict(show=3, adv=2, advdue=1, refresh=2), manyn=(4, 10), at_once=["any", "exchange", "token", "refresh", "redirect", "due", "refresh+tok", "refresh+tok", "show+tok"], accounts=(1, 3), variants=(0, 1), weird=0.4, exps=[3600, 100, 45, 1, 5, 60, 30, 0], len=(3, 14), at=0.4,
                  ops=ops(burst=1, many=4, preempt=3, settime=1, show=14, refresh=10, begin=5, auth=7, adv=6, advdue=4, unknown=5, mode=2, suspend=1, revoke=3, supersede=1)))

prop("C07", cats={"tokreq", "state", "late", "dead", "cmd:event", "status"}, n=(380, 12000), nontrivial=["refresh_by_timer"],
     profile=dict(swarm=0.04, at_once=["due", "due", "token", "refresh"], accounts=(1, 4), variants=(1, 3), sec_edits=0, benign_edits=1, acc_timing=0.5, glob_timing=0.5, huge=0.15,
                  exps=[3600, 3600, 7200, 100, 91, 90, 600, 86400, 10 ** 7, 10 ** 11, 2 ** 62, 2 ** 63 - 1, 2 ** 64 - 1], prefix=["auth"], len=(3, 12),
                  cmds={"notify": 0.3, "error": 0.3, "event": 0.7, "transient": 0.1}, edits={"acc_timing": 8, "timing": 5, "timing_drop": 2},
                  ops=ops(preempt=3, settime=2, retime=8, auth=6, auth_all=2, due_refresh=14, advdue=8, adv=4, reload=4, dump_restore=2, failrun=2, begin=0, redir_bad=0, redir_err=0)))

prop("C08", cats={"tokreq", "state", "status", "cmd:event", "cmd:error", "late", "dead"}, n=(430, 12000),
     nontrivial=["refresh_success", "refresh_refused", "refresh_transport_fail", "drop_no_refresh_token"],
     profile=dict(refusals_refresh=0.9, accounts=(1, 3), variants=(0, 1), answers={"ok": 5, "refused": 3, "lost": 3}, no_rt=5, cmds={"event": 0.95, "notify": 0.3, "error": 0.8, "transient": 0.3},
                  prefix=["auth"], len=(3, 12), ops=ops(refusals=5, preempt=4, refresh=14, due_refresh=8, tok=6, auth=7, failrun=2, ep=2, begin=1, look=3)))

prop("C09", cats={"tokreq", "state", "late", "dead", "status"} | CMDS, n=(420, 10000), nontrivial=["refresh_cmd_ongoing", "preempt_middle"],
     profile=dict(swarm=0.05, accounts=(2, 4), variants=(0, 1), prefix=["auth", "auth"], exps=[3600, 100, 120, 300, 45, 5], len=(3, 12),
                  ops=ops(preempt=7, refresh=12, show=6, exchange=6, tok=4, auth=7, mode=5, cmd=2, adv=4, advdue=4, transient=1, events=1, reload=1, failrun=2)))

prop("C10", cats={"cmd:transient", "cmd:event", "tokreq", "state", "status", "late", "dead", "cmdend"}, n=(420, 9000), nontrivial=["transient_cmd"],
     profile=dict(at_once=["refresh", "due", "token"], accounts=(1, 3), variants=(0, 3), cmds={"transient": 0.93, "event": 0.9, "notify": 0.3, "error": 0.3}, exps=[86400, 3600], len=(1, 4), shell=0.06, no_rt=0,
                  failrun=(4, 8), longrun=0.02, prefix=["auth"], ops=ops(preempt=1, transient=16, failrun=4, reload=1, tok=2, cmd=2, mode=1, dump_restore=1, begin=1, adv=2)))

prop("C11", cats=CORE | CMDS | {"dump", "restore"}, n=(560, 12000), nontrivial=["restored", "restore_skipped_changed"],
     profile=dict(at_once=["restore", "restore", "restore2", "restore2", "token", "any"], swarm=0.04, many=dict(restore=3, dump_restore=1), manyn=(3, 7), accounts=(1, 3), variants=(1, 3), sec_edits=2, hint=0.2, prefix=["auth"], len=(3, 10), restores={"plain": 5, "craft": 5, "mut": 1},
                  ops=ops(many=5, preempt=7, settime=3, dump_restore=14, dump=4, restore=6, reload=4, restart=2, revoke=3, exchange=3, begin=3, adv=3, due_refresh=3)))

prop("C12", cats={"dump", "restore", "dead", "state", "status", "secret"}, n=(560, 14000), nontrivial=["restore_refused", "restored", "dump_with_token"],
     profile=dict(many=dict(restore=1), manyn=(4, 10), accounts=(1, 4), variants=(0, 1), weird=0.4, prefix=["auth", "dump"], len=(3, 12), restores={"plain": 2, "mut": 8, "craft": 4}, clock=0.15,
                  ops=ops(many=6, dump=6, restore=16, auth=5, revoke=4, begin=2, adv=2, exchange=1, refresh=1, due_refresh=0, failrun=0, redir_bad=0, redir_err=0, ep=0)))

prop("C13", cats=CORE | CMDS | {"badreload", "reload", "url", "life", "dump", "restore"}, n=(400, 12000), nontrivial=["text_accepted", "text_refused", "op_reload"],
     profile=dict(many=dict(text=1), manyn=(3, 6), accounts=(1, 3), variants=(0, 2), layout=0.9, eps=3, fields=0.5, hint=0.15, https=0.1, no_https=0.7, glob_timing=0.4, acc_timing=0.4, len=(4, 12), weird=0.4,
                  ops=ops(many=10, text=40, auth=5, due_refresh=4, failrun=1, reload=4, redir_bad=0, ep=0, look=2, restart=1)))

prop("C14", cats=CORE | CMDS | {"badreload", "reload", "url"}, n=(520, 12000), nontrivial=["bad_reload", "op_reload"],
     profile=dict(many=dict(bad_reload=2, retime=1, reload=1), manyn=(3, 8), accounts=(1, 3), variants=(1, 3), sec_edits=0, benign_edits=2, glob_timing=0.3, acc_timing=0.3, prefix=["auth"], len=(3, 12), edits={"acc_timing": 10, "timing": 4},
                  ops=ops(many=2, preempt=3, retime=10, reload=10, bad_reload=12, due_refresh=6, refresh=4, mode=1, exchange=4, revoke=3, failrun=2, advdue=4)))

prop("C15", cats=CORE | CMDS | {"url", "dump", "restore"}, n=(520, 12000), nontrivial=["url_checked"],
     profile=dict(swarm=0.05, accounts=(2, 4), variants=(0, 2), twins=0.85, weird=0.5, eps=2, len=(4, 14), exps=[3600, 3600, 3599, 100], at=0.3,
                  ops=ops(preempt=3, unknown=5, auth=8, exchange=6, tok=8, refresh=6, revoke=4, failrun=1, dump_restore=1, redir_err=3, transient=1, redir_bad=2)))

prop("C16", cats={"cmd:event", "cmd:any", "cmdend", "late", "dead"}, n=(460, 10000), nontrivial=["cmd_event", "event_dropped"],
     profile=dict(swarm=0.03, at_once=["exchange", "refresh", "token", "any", "restore", "due"], accounts=(1, 3), variants=(0, 3), sec_edits=0, benign_edits=1, cmds={"event": 0.9, "notify": 0.3, "error": 0.3, "transient": 0.4}, no_rt=5, shell=0.05, prefix=["auth"],
                  len=(2, 8), ops=ops(burst=2, preempt=4, events=14, mode=2, cmd=4, revoke=5, refresh=5, due_refresh=4, reload=3, failrun=1, transient=1, begin=1)))

prop("C17", cats={"cmd:notify", "cmd:any", "url", "late", "dead", "cmdend"}, n=(480, 10000), nontrivial=["renotify", "notify"],
     profile=dict(swarm=0.05, at_once=["any", "any", "redirect", "due", "exchange"], accounts=(1, 4), variants=(0, 2), sec_edits=1, edits={"cmd_text": 8, "interval": 6}, interval=0.7, huge=0.05, cmds={"notify": 0.97, "error": 0.3, "event": 0.2, "transient": 0.1}, len=(3, 12), shell=0.04,
                  ops=ops(burst=1, preempt=2, settime=1, begin=14, advdue=10, adv=4, refresh=4, exchange=4, redir_err=2, revoke=3, reload=4, mode=4, cmd=2, auth=3, failrun=0, due_refresh=0)))

prop("C18", cats={"late", "tokreq", "cmd:notify", "state", "dead", "cmd:event"}, n=(400, 9000), nontrivial=["suspend"],
     profile=dict(swarm=0.03, at_once=["due", "any"], accounts=(1, 4), variants=(0, 1), prefix=["auth"], interval=0.5, acc_timing=0.4, no_rt=1, len=(2, 7), cmds={"notify": 0.9, "error": 0.3, "event": 0.9, "transient": 0.1},
                  ops=ops(preempt=1, settime=2, suspend=14, auth=6, begin=6, tok=5, adv=2, advdue=2, reload=1, failrun=0, refresh=2, due_refresh=2)))

prop("C19", cats={"sock", "dead", "state", "status", "tokreq", "cli"} | CMDS, n=(520, 14000), nontrivial=["raw_bad", "raw_wellformed"],
     profile=dict(many=dict(rawsock=5, crowd=1), accounts=(1, 3), variants=(0, 1), weird=0.3, len=(5, 20), prefix=["auth"],
                  ops=ops(burst=1, many=8, proxy=4, rawsock=24, crowd=12, unknown=4, begin=3, exchange=3, look=4, due_refresh=0, failrun=0, ep=0, adv=1)))

prop("C20", cats={"http", "redirect", "dead", "state", "status", "tokreq"}, n=(480, 12000), nontrivial=["junk_http", "junk_https", "flood", "redir_accepted"],
     profile=dict(edge=True, many=dict(junk=4, redir_bad=1), manyn=(4, 10), at_once=["redirect"], accounts=(1, 2), variants=(0, 0), https=0.35, no_https=0.3, frag=0.95, len=(4, 14), hint=0.0,
                  ops=ops(burst=1, many=5, preempt=4, junk=15, linger=4, flood=2, begin=4, redir_ok=10, exchange=6, redir_bad=3, show=3, due_refresh=0, failrun=0, ep=0, adv=1, reload=0)))

prop("C21", cats={"life", "dead", "state", "status"}, n=(400, 9000), nontrivial=["restart", "server2"],
     profile=dict(accounts=(1, 3), variants=(0, 1), daemon=0.3, prefix=["auth"], len=(3, 9),
                  ops=ops(restart=12, server2=10, auth=5, begin=3, exchange=3, tok=3, failrun=0, due_refresh=1, dump_restore=1)))

prop("C22", cats={"secret"}, n=(420, 9000), nontrivial=["exchange_success", "refresh_success", "exchange_refused", "refresh_refused"],
     profile=dict(accounts=(1, 3), variants=(0, 2), verbose=[0, 2, 4, 4], daemon=0.2, cmds={"notify": 0.95, "error": 0.95, "event": 0.95, "transient": 0.8}, len=(5, 14), prefix=["auth"],
                  ops=ops(refusals=3, preempt=1, auth=8, tok=8, exchange=6, refresh=6, look=6, junk=2, redir_bad=3, redir_err=2, dump_restore=2, transient=1, bad_reload=2, reload=3, rawsock=2, failrun=2)))

prop("C23", cats={"redirect", "http", "info", "tokreq", "state", "dead", "tls", "url"}, n=(400, 8000), nontrivial=["redir_accepted", "redir_rejected", "tls_cert"],
     profile=dict(many=dict(redir_bad=1), accounts=(1, 3), variants=(0, 1), https=0.6, no_https=0.3, no_http=0.3, len=(3, 9), hint=0.0, bad_begin=0.8,
                  own_listen=0.2, ops=ops(many=5, exchange=10, linger=3, redir_ok=8, redir_bad=8, begin=4, look=3, tok=6, due_refresh=0, failrun=0, ep=0, adv=1, reload=2, restart=1)))

prop("C24", cats={"status", "info", "dead"}, n=(520, 12000), nontrivial=["status_checked"],
     profile=dict(swarm=0.04, at_once=["exchange", "exchange", "refresh", "token", "any", "redirect"], accounts=(1, 4), variants=(0, 2), weird=0.4, clock=0.2, exps=[3600, 1, 100, 0, 86400, 10 ** 9, 10 ** 12, 2 ** 62, 2 ** 63 - 1, 2 ** 64 - 1, 253402300800], len=(4, 14), prefix=["auth"], mixed=0.6, tz=0.3,
                  ops=ops(preempt=5, settime=5, look=16, auth=8, begin=4, adv=5, advdue=3, failrun=2, reload=2, restart=1, suspend=0, dump_restore=2)))

prop("C25", cats={"cli", "state", "dead", "life", "info", "status"}, n=(420, 9000), nontrivial=["usage_bad", "outfault", "no_server", "together", "proxy_lost", "proxy_slam"],
     profile=dict(many=dict(usage=5, unknown=1), manyn=(4, 12), accounts=(1, 4), variants=(0, 1), weird=0.7, forms=0.6, prefix=["auth"], len=(4, 14),
                  ops=ops(many=6, proxy=8, usage=22, outfault=6, elsewhere=2, together=4, crowd=3, unknown=6, show=6, refresh=3, revoke=4, bad_reload=3, reload=1, dump_restore=2, restore=2, begin=4, auth=5, restart=2,
                          server2=1, failrun=0, due_refresh=0, redir_bad=0, redir_err=1, ep=0)))

prop("C26", cats=CORE | CMDS | {"url", "life", "info", "dump", "restore", "http", "sock", "cli", "reload", "badreload", "touch", "cmd:log"}, n=(300, 8000), nontrivial=["op_show", "touched"],
     profile=dict(verbose=[0, 2], accounts=(1, 3), variants=(0, 2), rel=0.3, daemon=0.88, https=0.1, no_https=0.7, len=(4, 12),
                  ops=ops(mode=1, events=1, transient=1, dump_restore=1, restart=1, suspend=1, bad_reload=1, look=4, touch=2)))

prop("C27", cats={"peer", "tokreq", "state", "status", "cmd:error", "cmd:event", "late", "dead", "url", "redirect"}, n=(300, 6000), nontrivial=["tls_refused"],
     profile=dict(accounts=(1, 3), variants=(0, 1), tls=True, no_https=0.9, hint=0.0, len=(3, 8), cmds={"error": 0.95, "notify": 0.3, "event": 0.9, "transient": 0.1}, exps=[3600],
                  interval=0.0, clock=0.2,
                  ops=dict(tls_token=6, tls_exchange=10, tls_mode=3, refresh=5, due_refresh=4, show=3, begin=2, revoke=1, look=2, adv=2, reload=1, ep=1)))

prop("C28", cats={"leak", "dead"}, n=(170, 3000), nontrivial=["leak_checked"],
     profile=dict(accounts=(1, 2), variants=(0, 1), https=0.15, no_https=0.6, cmds={"notify": 0.7, "error": 0.7, "event": 0.8, "transient": 0.4}, len=(1, 2), prefix=["auth"], shell=0.05, no_rt=2, frag=0.3,
                  exps=[3600, 3600, 600, 100], interval=0.5, daemon=0.15,
                  rounds=dict(auth=4, exchange=4, begin=3, redir_ok=3, redir_err=3, redir_bad=3, refresh=5, due_refresh=4, advdue=3, adv=2, failrun=1, transient=1, revoke=2, supersede=4, events=3,
                              refusals=1, reload=2, aba=1, dump_restore=2, bad_reload=2, junk=4, linger=2, rawsock=3, crowd=2, unknown=1, suspend=1, ep=1, tok=3, cmd=2, look=1, proxy=1),
                  ops=dict(leak=1)))
