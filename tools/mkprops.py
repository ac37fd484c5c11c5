#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

TS = ("per-account token state", "no token / authentication pending / active token", "src/server/state.rs")

p("C01", "Reload keeps a token only if the account is security-identical",
  "After a successful reload, an account keeps its token or its pending authentication exactly when an account of the same name exists in the new configuration with the same auth_uri, auth_uri_fields (order included), client_id, client_secret, redirect_uri, scopes (order included), login hint and token_uri; otherwise that account starts again with no token and no pending authentication. "
  "A token or authorisation obtained under an older, security-relevantly different version of the account is never shown or accepted again, even if the old configuration later returns. "
  "Changes to timing options, notification commands or other accounts never cost an account its token.",
  ["histories", "configurations"],
  "all sequences of reloads (single/multiple field edits, adds, removals, renames, re-orderings, A-to-B-to-A round trips) interleaved with authentication, refresh and revocation in every account state",
  "test_act_validation walks one fixed sequence in which only auth_uri changes; the other fields, combinations, in-flight work and round trips are never tried",
  ["src/server/state.rs", "src/config.rs", "src/server/mod.rs"],
  [("security-relevant account comparison", "src/config.rs"), ("configuration swap under the state lock", "src/server/state.rs")],
  [TS], ["pizauth reload", "pizauth show", "pizauth status"])

p("C02", "Results of superseded work are discarded",
  "If, while a code exchange or a refresh is waiting for the token server, its account is revoked, replaced or removed by a reload, restored, given a fresh authorisation request, or completed by another exchange, then whatever answer later arrives (success or failure) changes nothing: no token appears, none disappears, no event or error notification is issued. "
  "Conversely an answer is never lost while none of those happened, whatever notifications, status queries, reloads of irrelevant options or commands for other accounts took place meanwhile.",
  ["schedules", "histories"],
  "all orders in which start and completion of exchanges and refreshes interleave with revoke, reload, restore, refresh, reminders and each other, over several accounts",
  "no test performs an exchange or refresh at all; the outcome depends on the order of completion against other commands",
  ["src/server/http_server.rs", "src/server/refresher.rs", "src/server/state.rs", "src/server/notifier.rs"],
  [("version check before applying a result", "src/server/state.rs"), ("result application", "src/server/http_server.rs"), ("result application", "src/server/refresher.rs")],
  [TS], ["pizauth show", "token endpoint", "token_event_cmd", "error_notify_cmd"])

p("C03", "Only the redirect of a currently pending request is acted on",
  "An incoming redirect leads to a token request, or to a failed authentication, only if its state parameter equals that of a currently pending request and it was addressed to the scheme, host and port of that account's redirect URI. "
  "Any other request - unknown, superseded or already consumed state, wrong scheme, host or port, missing code - is answered (200 with an explanation, 400 or 404) and leaves every account, the token server and the notification commands untouched.",
  ["inputs", "histories"],
  "all redirect requests (states of any account, past or forged; any host/port/scheme; any parameter order, duplication and encoding) at every point of a history",
  "no test sends an HTTP request to the server",
  ["src/server/http_server.rs", "src/config.rs"],
  [("state lookup and redirect URI comparison", "src/server/http_server.rs")],
  [TS], ["HTTP/HTTPS listener", "token endpoint", "pizauth status"])

p("C04", "Authorisation URLs are exact, fresh and PKCE-bound",
  "Each new authorisation request yields a URL that is auth_uri (keeping its own query) plus client_id, redirect_uri (with the listening port), response_type=code, access_type=offline, S256 code challenge, state, the space-joined scopes if any, and then auth_uri_fields in configured order with duplicates kept, the deprecated login_hint being equivalent to such a field; every value decodes to exactly the configured string. "
  "State and code challenge differ between any two requests, within and across server runs, and the later code exchange sends the unique verifier whose SHA-256 is that request's challenge together with the same client_id and redirect_uri. "
  "While a request is pending, showing the account returns that same URL; refresh replaces it by a new one.",
  ["inputs", "configurations", "histories"],
  "all account configurations (URIs with queries, reserved and non-ASCII characters, empty and repeated fields, scopes) and all sequences of requests",
  "no test builds an authorisation URL",
  ["src/server/request_token.rs", "src/config.rs", "src/server/http_server.rs"],
  [("URL construction, random state and verifier", "src/server/request_token.rs"), ("redirect URI port substitution", "src/config.rs")],
  [TS], ["pizauth show", "pizauth refresh", "token endpoint"])

p("C05", "A code exchange ends in exactly the token received or a reported failure",
  "An accepted redirect sends one form POST to the account's token_uri carrying the code, client_id, client_secret if configured, redirect_uri, verifier and grant type; a 2xx JSON answer with token_type Bearer, a numeric expires_in and an access_token makes exactly that access token (and refresh token, if given) the account's token. "
  "Any HTTP error status, OAuth error object, malformed or incomplete answer, or an error redirect, leaves the account with no token and no pending request and is reported exactly once, with the account name and reason, through error_notify_cmd or, without one, in the log. "
  "If no answer can be obtained at all, the request is repeated at about 6-second intervals for 10 attempts in total before it counts as failed, while the account stays pending.",
  ["inputs", "fault_sequences"],
  "all token endpoint answers (status x body x fields x types) and sequences of connection failures, for all account configurations",
  "no test contacts a token endpoint",
  ["src/server/http_server.rs", "src/server/notifier.rs", "src/server/mod.rs"],
  [("exchange, retry loop and answer validation", "src/server/http_server.rs"), ("error notification", "src/server/notifier.rs")],
  [TS], ["token endpoint", "error_notify_cmd", "pizauth show"])

p("C06", "show and refresh report exactly the account's current state, without blocking",
  "show prints exactly the current access token and a newline and exits 0 if and only if the account has one that has not expired; otherwise it prints nothing to stdout, explains on stderr and exits 1, starting an authorisation request if there is no token and a refresh if the token has expired and none is under way. "
  "refresh exits 0 when a refresh of an existing token is scheduled or running and otherwise starts a new authorisation request and exits 1; the authorisation URL is included exactly when one is pending and -u was not given, and an unknown account is an error with no effect. "
  "Both return at once however long token servers or notification commands take.",
  ["histories", "inputs"],
  "all histories and times over all account names and token strings, with and without -u",
  "the command handlers and the client are not exercised by any test",
  ["src/server/mod.rs", "src/user_sender.rs", "src/main.rs"],
  [("request dispatch", "src/server/mod.rs"), ("client reply handling", "src/user_sender.rs")],
  [TS], ["pizauth show", "pizauth refresh"])

p("C07", "Tokens are refreshed exactly when they are due",
  "An active token with no failed attempt is refreshed when the earlier of (expiry minus refresh_before_expiry) and (obtained plus refresh_at_least) is reached - not before and without further prompting - and after a transitory failure again each refresh_retry after the failure. "
  "For each of the three options the account's value overrides the global one, which overrides the default (90 s, 90 min, 40 s); a reload or restore takes effect on the current tokens at once. "
  "Several accounts are each refreshed at their own time, and extreme but valid option or expires_in values never crash the server or lose the token.",
  ["histories", "configurations", "schedules"],
  "all token lifetimes, option settings (account/global/default), reload and restore points and account mixes, over virtual time spans from milliseconds to years",
  "the tests check only the override lookup for three values; nothing runs the scheduler or moves a clock",
  ["src/server/refresher.rs", "src/config.rs", "src/server/mod.rs"],
  [("due time computation and wake-up loop", "src/server/refresher.rs"), ("option precedence", "src/config.rs"), ("expiry computation", "src/server/mod.rs")],
  [TS], ["token endpoint request times"])

p("C08", "A refresh replaces, keeps or drops the token according to the answer",
  "A refresh POSTs exactly the current refresh token, client_id, grant type and client_secret if configured to the account's token_uri; on a valid answer the new access token and lifetime replace the old ones, and the refresh token becomes the one in the answer if there is one and stays the same otherwise. "
  "An HTTP error status, an OAuth error object or a malformed or incomplete answer removes the token and raises a token_invalidated event, whereas a failure to connect or to receive the whole answer keeps the token in use and is retried later. "
  "A token without a refresh token is dropped, with a token_invalidated event, when a refresh of it becomes due or is requested.",
  ["inputs", "fault_sequences", "histories"],
  "all answers and failures at each of any number of successive refreshes, with refresh tokens that change, stay or are absent (what one that isn't a string means is left open)",
  "no test performs a refresh",
  ["src/server/refresher.rs"],
  [("refresh request and answer classification", "src/server/refresher.rs")],
  [TS], ["token endpoint", "pizauth show", "token_event_cmd"])

p("C09", "One refresh per account at a time, and nobody waits for another account",
  "At no time is more than one refresh request of an account's token outstanding, however many refresh and show commands arrive and timers fire while it runs; once it has ended, however it ended, a later refresh is possible again. "
  "While any number of exchanges, refreshes, notification or transient-error commands of some accounts are stalled, all commands are still answered and all other accounts are still authenticated, refreshed and notified on time.",
  ["schedules", "histories"],
  "all interleavings of commands, timers, stalled and completing requests over several accounts, including requests stalled until their 30 s timeout",
  "no test runs two activities at once",
  ["src/server/refresher.rs", "src/server/http_server.rs", "src/server/mod.rs", "src/server/notifier.rs"],
  [("ongoing-refresh marker", "src/server/refresher.rs"), ("no lock held across network calls", "src/server/refresher.rs")],
  [TS], ["token endpoint", "all commands"])

p("C10", "transient_error_if_cmd decides after every sixth consecutive failure",
  "transient_error_if_cmd runs, with the account name in its environment, exactly when the number of consecutive transitory refresh failures of an account reaches a multiple of six, successes resetting the count; without the option transitory failures never cost the token. "
  "If it exits with zero the token is kept and retried as usual; if it exits with non-zero, dies from a signal, cannot be run, or is still running after three minutes (it is then killed), the token is removed and one token_invalidated event is raised. "
  "If the account was revoked, reconfigured or newly authenticated meanwhile, its verdict changes nothing and raises no event.",
  ["fault_sequences", "histories", "schedules"],
  "all sequences of successes and failures per account, all verdicts and durations of the command, and all events while it runs",
  "no test produces a refresh failure",
  ["src/server/refresher.rs"],
  [("failure counter and command verdict", "src/server/refresher.rs")],
  [TS], ["transient_error_if_cmd invocations", "token_event_cmd", "pizauth show"])

p("C11", "dump then restore carries over exactly the usable tokens",
  "Restoring a dump gives an account the dumped access token, refresh token and (up to clock drift) obtained and expiry times if and only if the account currently has no active token, the dump holds one for the same name, and all security-relevant fields of the dumped account equal the current ones; every other account is left exactly as it was, pending requests included. "
  "Dumping never changes state, pending requests are not dumped, restored tokens are refreshed when due, and restore never alters the configuration.",
  ["histories", "configurations"],
  "all states at dump and restore time, all configuration edits between them, the same or a restarted server, any time passed or clock drift in between, repeated and out-of-order dumps",
  "the dump_restore test uses one account configuration, never changes it, and checks only the kind of state, not its contents",
  ["src/server/state.rs", "src/config.rs"],
  [("restore merge", "src/server/state.rs"), ("security-relevant comparison with dumped account", "src/config.rs")],
  [TS], ["pizauth dump", "pizauth restore", "pizauth show", "pizauth status"])

p("C12", "Dump format is stable, opaque to grep, and bad dumps are refused whole",
  "Dumps written by any 1.x build with the current format are readable and vice versa: an independent implementation of the format can decode every dump and every dump it encodes restores faithfully. "
  "No configured secret or token occurs verbatim in a dump, and two dumps of the same state differ. "
  "Input that is truncated, corrupted, forged, of another format version or empty is rejected: restore exits 1 with an error and no account changes.",
  ["inputs"],
  "all reachable states dumped, all well-formed dumps from an independent encoder, and all mutations (bit flips, truncations, extensions, version changes, re-encrypted garbage)",
  "the only test restores dumps made by the same process and never a damaged one",
  ["src/server/state.rs", "src/config.rs", "src/user_sender.rs", "src/server/mod.rs"],
  [("serialisation and light encryption", "src/server/state.rs"), ("dumped account layout", "src/config.rs")],
  None, ["pizauth dump", "pizauth restore"])

p("C13", "Exactly the documented configuration language is accepted, with its meaning",
  "A configuration is accepted if and only if it follows the documented grammar, gives every mandatory account option, repeats no option, uses only http/https URIs and representable times, has at least one account, and leaves at least one listener on and a listener for each account's redirect scheme; whitespace, comments and order of options do not matter. "
  "Accepted values mean exactly what is written, with \\\" and \\\\ as the only escapes, s/m/h/d units and the documented defaults. "
  "Anything else is refused with an error message and exit status 1, never a crash or hang.",
  ["inputs", "configurations"],
  "all texts: generated valid configurations under arbitrary layout, single-fault mutations of them, token-level and byte-level garbage",
  "the parser tests check a few dozen fixed strings",
  ["src/config.rs", "src/config.l", "src/config.y"],
  [("lexer and grammar", "src/config.y"), ("option checks and unescaping", "src/config.rs")],
  None, ["pizauth server -c", "pizauth reload", "authorisation URL and token requests"])

p("C14", "Reload is all or nothing",
  "If the configuration file is missing, unreadable or invalid at reload, the command exits 1 with the reason and the running server keeps its entire previous configuration and all account states, as if the reload had not been requested. "
  "If it is valid, reload exits 0 and from then on every option (accounts, timings, notification, event and transient-error commands) has exactly the new value, including for work begun later by accounts that kept their state.",
  ["histories", "configurations", "inputs"],
  "all sequences of valid and invalid reloads in any server state",
  "no test reloads from a file or with a faulty configuration",
  ["src/server/mod.rs", "src/server/state.rs", "src/config.rs"],
  [("parse before swap", "src/server/mod.rs")],
  [TS], ["pizauth reload", "subsequent behaviour"])

p("C15", "Operations on one account never affect another",
  "Whatever commands, redirects, token answers, failures, timeouts, notifications and events happen for one account, every other account's token, pending request, refresh times and notifications stay as they were, even when accounts share client, URIs, secrets or token strings or have similar names. "
  "Tokens and answers are never attributed to an account other than the one whose request produced them.",
  ["histories", "schedules"],
  "all interleaved histories over two to five accounts with overlapping configurations",
  "no test drives two accounts through authentication",
  ["src/server/state.rs", "src/server/http_server.rs", "src/server/refresher.rs", "src/server/notifier.rs"],
  [("account identities", "src/server/state.rs")],
  [TS], ["pizauth show", "pizauth status", "token endpoint"])

p("C16", "Every token change raises its event, once, in order, one at a time",
  "token_event_cmd is run once for each change with the right account and event type: token_new for each token obtained by authentication, token_refreshed for each successful refresh, token_invalidated for each token dropped by a failed or impossible refresh, token_revoked for each revoke, and never otherwise. "
  "Runs follow the order of the changes, never overlap, and a run that fails, cannot start or overruns its time limit (it is then killed) does not lose or reorder later ones. "
  "The command used is the one configured when the event's turn comes; events whose turn comes while none is configured are dropped.",
  ["histories", "schedules"],
  "all histories producing events, with commands finishing in any order of time, failing, hanging, and being reconfigured while events are queued",
  "no test runs an event command",
  ["src/server/eventer.rs", "src/server/mod.rs", "src/server/refresher.rs", "src/server/http_server.rs"],
  [("event queue and runner thread", "src/server/eventer.rs")],
  None, ["token_event_cmd invocations"])

p("C17", "Each pending authentication is notified at once and then at the set interval",
  "When an authorisation request is created, auth_notify_cmd is run once with that account and exactly the currently valid URL, and again every auth_notify_interval for as long as that request stays pending, each account on its own schedule and whether or not earlier commands are still running or failed. "
  "It is never run for an account without a pending request nor with a superseded URL, and not earlier than the interval after the last notification.",
  ["histories", "schedules", "configurations"],
  "all histories of requests, completions, revocations and reloads over several accounts and intervals, with slow commands",
  "no test starts the notifier",
  ["src/server/notifier.rs", "src/server/request_token.rs"],
  [("notification schedule", "src/server/notifier.rs")],
  [TS], ["auth_notify_cmd invocations"])

p("C18", "Work overdue after suspend is done within about 40 seconds of running time",
  "If the machine sleeps or the timers stall for any length of time while the suspend-aware clock advances, then every refresh or reminder that fell due meanwhile is carried out at the latest about 40 seconds of running time after resume, without any command being given. "
  "Expiry is judged by the suspend-aware clock: a token that expired during the sleep is never shown afterwards.",
  ["schedules", "histories"],
  "all combinations of running and suspended time spans, pending and active accounts, and option settings",
  "no test controls a clock",
  ["src/server/mod.rs", "src/server/refresher.rs", "src/server/notifier.rs"],
  [("bounded waits", "src/server/refresher.rs"), ("suspend-aware clock", "src/server/state.rs")],
  [TS], ["token endpoint request times", "auth_notify_cmd invocations", "pizauth show"])

p("C19", "No client of the command socket can disturb the server",
  "Any byte sequence sent to the command socket, complete or cut short, by a client that may vanish before the reply, leaves every account unchanged unless it is a well-formed command, and the server goes on answering subsequent commands normally. "
  "Malformed and unknown requests are never executed.",
  ["inputs", "fault_sequences"],
  "all byte strings, truncations and mutations of valid requests, disconnections at any point",
  "no test opens the socket",
  ["src/server/mod.rs", "src/user_sender.rs"],
  [("request parsing", "src/server/mod.rs")],
  [TS], ["command socket", "pizauth status"])

p("C20", "No client of the HTTP(S) listeners can disturb the server",
  "Any byte sequence sent to the HTTP or HTTPS listener, at any speed, in any fragmentation, over any number of connections, complete or cut short, gets an HTTP response or a closed connection and leaves all accounts, commands and other connections working, unless it is a valid redirect for a pending request. "
  "A valid redirect is recognised regardless of fragmentation, header order, header case, header whitespace and additional headers; a request larger than 16 KiB is refused without the server buffering more than a small multiple of that.",
  ["inputs", "fault_sequences"],
  "all byte strings, fragmentations and header variations, up to megabytes and many connections",
  "no test opens the listeners",
  ["src/server/http_server.rs"],
  [("request parsing and size limit", "src/server/http_server.rs")],
  [TS], ["HTTP/HTTPS listener", "pizauth status", "server memory"])

p("C21", "One live server per runtime directory, and a crash never blocks the next start",
  "While a server is running, starting another one for the same runtime directory fails with status 1 and leaves the running one and its tokens undisturbed. "
  "After the server has been shut down or killed at any point, a new server starts in the same directory, with no tokens left over from before, and is controlled by the same commands.",
  ["crash_points", "histories"],
  "kill or shutdown after any prefix of any history (including requests in flight and commands running), any number of restarts and competing starts",
  "no test starts the program",
  ["src/main.rs", "src/server/mod.rs"],
  [("stale socket detection", "src/main.rs")],
  None, ["pizauth server", "pizauth shutdown", "pizauth status"])

p("C22", "Tokens and secrets leave the server only through show, dump and the token server",
  "Access tokens, refresh tokens, code verifiers and client secrets never appear in any file, in log output at any verbosity, in the environment or arguments of the commands pizauth runs, in status or info output, or in HTTP responses; each is sent only to the token_uri configured for the account it belongs to. "
  "The runtime directory holding the command socket is accessible to its owner only, whatever the umask or previous mode.",
  ["histories", "configurations"],
  "all histories (including failures, revocations, reloads and restores) at all verbosity levels, with secrets made of arbitrary characters, and all umasks and pre-existing directory modes",
  "no test looks at files, logs or child environments",
  ["src/main.rs", "src/server/mod.rs", "src/server/http_server.rs", "src/server/refresher.rs", "src/server/notifier.rs", "src/server/eventer.rs"],
  [("in-memory only state; private runtime directory", "src/main.rs")],
  None, ["scratch file system", "stderr", "child environments", "HTTP responses"])

p("C23", "HTTPS redirects work like HTTP ones and the certificate is the advertised one",
  "When the HTTPS listener is on, a redirect over TLS completes authentication of accounts with an https redirect URI exactly as HTTP does for http ones, and neither listener accepts a redirect meant for the other. "
  "The public key of the certificate presented is the one info reports for the whole life of the server, and a listener set to none is not opened and is reported as none.",
  ["configurations", "inputs", "histories"],
  "all listener settings (both, either, explicit ports) and redirect schemes, TLS and non-TLS clients on either port, over multiple restarts",
  "no test starts a listener",
  ["src/server/http_server.rs", "src/server/mod.rs", "src/config.rs"],
  [("TLS server set-up", "src/server/http_server.rs"), ("redirect URI scheme selection", "src/config.rs")],
  None, ["HTTPS listener", "pizauth info"])

p("C24", "status and info describe the true state and never harm the server",
  "status lists every configured account exactly once, in sorted order, as having no token, pending authentication (with the time of the last notification, if any), an active token (with the times it was obtained and expires) or an expired one (with the time of the last attempt to refresh it, if any), in agreement with what show would do; info reports the actual ports, key, paths and version, and says whether a server is running. "
  "Neither changes any state nor can fail, hang or crash the server, whatever the token lifetimes, account names and clocks are.",
  ["histories", "inputs", "configurations"],
  "all histories and account names, and token lifetimes from 0 to 2^64-1 seconds",
  "no test issues status or info",
  ["src/server/mod.rs", "src/main.rs", "src/user_sender.rs"],
  [("status formatting", "src/server/mod.rs")],
  [TS], ["pizauth status", "pizauth info", "pizauth info -j"])

p("C25", "The command line reports success and failure truthfully",
  "Every subcommand exits 0 if and only if it did what it was asked, and otherwise exits non-zero with a message on stderr and no effect: in particular with wrong usage, an unknown account, no running server, a server whose connection ends before it has answered, or (for dump, show and status) output that cannot be written. "
  "Account names with spaces, quotes, colons, line breaks, leading dashes after --, or non-ASCII characters are handled like any other.",
  ["inputs", "configurations"],
  "all subcommands x argument vectors x account names x server up/down/invalid state x writable or full output",
  "no test runs the program",
  ["src/main.rs", "src/user_sender.rs", "src/server/mod.rs"],
  [("argument parsing and exit codes", "src/main.rs"), ("client side of the protocol", "src/user_sender.rs")],
  None, ["exit status", "stdout", "stderr"])

p("C26", "Daemonised and foreground servers behave alike, and the socket is kept alive",
  "A daemonised server (the default) serves commands, authenticates, refreshes, notifies and raises events exactly like one run with -d, reporting configuration errors before it detaches. "
  "In both modes the command socket's timestamps are renewed at least every six hours of running time, so that runtime-directory cleaners do not remove it.",
  ["histories", "configurations"],
  "histories run in both modes, over virtual time spans up to days",
  "no test starts the program or moves a clock",
  ["src/main.rs"],
  [("daemonisation and socket touch thread", "src/main.rs")],
  None, ["pizauth server", "socket timestamps", "commands"])

p("C27", "Credentials are never sent to a token server whose certificate is not trusted",
  "When token_uri is https, no authorisation code, verifier, client secret or refresh token is transmitted unless the server has presented a certificate that chains to a trusted root and matches the host; a code exchange with such a server ends as a reported failure and a refresh keeps the old token until it succeeds or is permanently refused.",
  ["configurations", "fault_sequences"],
  "all exchanges and refreshes against TLS servers with self-signed, expired, mismatching certificates, plain-text servers, and aborted handshakes",
  "no test contacts a token endpoint, let alone over TLS",
  ["src/server/http_server.rs", "src/server/refresher.rs", "Cargo.toml"],
  [("HTTP client configuration", "src/server/refresher.rs")],
  None, ["bytes received by the token server", "pizauth status"])

p("C28", "Finished work leaves nothing behind in the server",
  "However many authentications, refreshes, notifications, commands, redirects, reloads and connections a server has handled, once they are over (answered, failed, cancelled, superseded, cut off or timed out) it has no more threads, open files and child processes than before them: "
  "none of these grows with the amount of past work, so a server left running for months keeps working.",
  ["histories", "fault_sequences"],
  "all cycles of operations, peer faults and command behaviours, repeated many times between two moments without pending work",
  "no test starts a server, and none repeats anything often enough for a leak to show",
  ["src/server/mod.rs", "src/server/http_server.rs", "src/server/refresher.rs", "src/server/eventer.rs", "src/server/notifier.rs"],
  [("threads per connection, refresh and command", "src/server/mod.rs"), ("waiting for child processes", "src/server/notifier.rs")],
  None, ["threads, file descriptors and children of the server process"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
