From 9eda0bf78c7376622051ca93a5a65288cb1958c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 01/23] fix: don't panic in 'pizauth status' for times that
 can't be represented

An expiry a long way into the future caused chrono to panic, taking the whole
server with it.
---
 src/server/mod.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 331bd7b..03dc83f 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -16,7 +16,7 @@ use std::{
 };
 
 use boot_time::Instant;
-use chrono::{DateTime, Local};
+use chrono::{DateTime, Datelike, Local};
 use log::warn;
 use nix::sys::signal::{raise, Signal};
 #[cfg(target_os = "openbsd")]
@@ -305,20 +305,29 @@ fn request(pstate: Arc<AuthenticatorState>, mut stream: UnixStream) -> Result<()
 /// there is no guarantee this is possible or that the time presented is accurate.
 fn instant_fmt(i: Instant) -> String {
     let now = Instant::now();
-    if i < now {
-        if let Some(d) = now.checked_duration_since(i) {
-            if let Some(st) = SystemTime::now().checked_sub(d) {
-                let dt: DateTime<Local> = st.into();
-                return dt.to_rfc2822();
-            }
-        }
-    } else if let Some(d) = i.checked_duration_since(now) {
-        if let Some(st) = SystemTime::now().checked_add(d) {
-            let dt: DateTime<Local> = st.into();
-            return dt.to_rfc2822();
-        }
-    }
-    "<unknown time>".into()
+    let st = if i < now {
+        now.checked_duration_since(i)
+            .and_then(|d| SystemTime::now().checked_sub(d))
+    } else {
+        i.checked_duration_since(now)
+            .and_then(|d| SystemTime::now().checked_add(d))
+    };
+    st.and_then(system_time_to_rfc2822)
+        .unwrap_or_else(|| "<unknown time>".into())
+}
+
+/// Convert `st` to an RFC2822 string, returning `None` if that is not possible (chrono panics when
+/// asked to convert, or format, a time it cannot represent).
+fn system_time_to_rfc2822(st: SystemTime) -> Option<String> {
+    let (secs, nanos) = match st.duration_since(SystemTime::UNIX_EPOCH) {
+        Ok(d) => (i64::try_from(d.as_secs()).ok()?, d.subsec_nanos()),
+        Err(e) => (-i64::try_from(e.duration().as_secs()).ok()?, 0),
+    };
+    // RFC2822 can only represent years 0-9999.
+    let is_representable = |year| (0..=9999).contains(&year);
+    let dt = DateTime::from_timestamp(secs, nanos).filter(|dt| is_representable(dt.year()))?;
+    let dt = dt.with_timezone(&Local);
+    is_representable(dt.year()).then(|| dt.to_rfc2822())
 }
 
 pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(), Box<dyn Error>> {
-- 
2.43.0


From 230e5eb0b74a401d93550bad10738d70fe6f307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 02/23] fix: report an error if a dump can't be restored

The result of LockedState::restore was ignored, so dumps that could not be
deserialised, or had an unknown version, were reported as having been restored.
---
 src/server/state.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/state.rs b/src/server/state.rs
index f0ebc24..9c0698b 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -136,8 +136,7 @@ impl AuthenticatorState {
             .decrypt(Nonce::from_slice(nonce), encrypted.as_ref())
             .map_err(|_| "Restoring dump failed")?;
 
-        let lk = self.locked_state.lock().unwrap().restore(d);
-        drop(lk);
+        self.locked_state.lock().unwrap().restore(d)?;
         self.notifier.notify_changes();
         self.refresher.notify_changes();
         Ok(())
-- 
2.43.0


From 52489a6597e1055362db4bf6e7eb4becd11dea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 03/23] fix: don't lose a token if a notification happens
 during the code exchange

Notifying the user that authentication is pending changed the account's
AccountId, so the result of an ongoing exchange of an authentication code was
silently discarded.
---
 src/server/notifier.rs | 12 ++++++------
 src/server/state.rs    | 26 ++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index f4b54fe..9f362b5 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -59,12 +59,11 @@ impl Notifier {
             let now = Instant::now();
             let notify_interval = ct_lk.config().auth_notify_interval; // Pulled out to avoid borrow checker problems.
             for act_id in ct_lk.act_ids().collect::<Vec<_>>() {
-                let mut ts = ct_lk.tokenstate(act_id).clone();
                 if let TokenState::Pending {
-                    ref mut last_notification,
-                    ref url,
+                    last_notification,
+                    url,
                     ..
-                } = ts
+                } = ct_lk.tokenstate(act_id)
                 {
                     if let Some(t) = last_notification {
                         if let Some(t) = t.checked_add(notify_interval) {
@@ -73,13 +72,14 @@ impl Notifier {
                             }
                         }
                     }
-                    *last_notification = Some(now);
                     let url = url.clone();
                     let act = ct_lk.account(act_id);
                     if let Some(ref cmd) = ct_lk.config().auth_notify_cmd {
                         auth_cmds.push((act.name.to_owned(), cmd.clone(), url));
                     }
-                    ct_lk.tokenstate_replace(act_id, ts);
+                    // A thread might currently be exchanging a code for a token for this account:
+                    // notifying the user must not invalidate the `act_id` it holds.
+                    ct_lk.tokenstate_set_last_notification(act_id, now);
                 }
             }
             drop(ct_lk);
diff --git a/src/server/state.rs b/src/server/state.rs
index 9c0698b..0aee8d2 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -379,6 +379,32 @@ impl<'a> CTGuard<'a> {
         unreachable!();
     }
 
+    /// If `act_id` is `Pending`, set `last_notification` to `Some(new_last_notification)`. Since
+    /// this does not affect the authentication that is pending, `act_id` remains valid.
+    ///
+    /// # Panics
+    ///
+    /// If `act_id` is not valid or is not `Pending`.
+    pub fn tokenstate_set_last_notification(
+        &mut self,
+        act_id: AccountId,
+        new_last_notification: Instant,
+    ) {
+        let i = self
+            .guard
+            .details
+            .iter()
+            .position(|x| x.1 == act_id)
+            .unwrap();
+        match self.guard.details[i].2 {
+            TokenState::Pending {
+                ref mut last_notification,
+                ..
+            } => *last_notification = Some(new_last_notification),
+            _ => unreachable!(),
+        }
+    }
+
     /// Update the tokenstate for `act_id` to `new_tokenstate` returning a new [AccountId]
     /// valid for the new tokenstate, updating the tokenstate version.
     ///
-- 
2.43.0


From 1e3dc7c54d3a37b13b64632bf0005f07e97760c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 04/23] fix: don't report a token as invalidated if it wasn't

If the account/token changed while 'transient_error_if_cmd' was running, a
'token_invalidated' event was generated for a token that hadn't been
invalidated by this.
---
 src/server/refresher.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 00795ad..8959180 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -125,13 +125,13 @@ impl Refresher {
                                                                 act_id,
                                                                 TokenState::Empty,
                                                             );
+                                                            drop(ct_lk);
+                                                            info!("Permanent refresh error for {act_name} : {e}");
+                                                            pstate.eventer.token_event(
+                                                                act_name,
+                                                                TokenEvent::Invalidated,
+                                                            );
                                                         }
-                                                        drop(ct_lk);
-                                                        info!("Permanent refresh error for {act_name} : {e}");
-                                                        pstate.eventer.token_event(
-                                                            act_name,
-                                                            TokenEvent::Invalidated,
-                                                        );
                                                     }
                                                 };
                                             } else {
-- 
2.43.0


From 81bd68c49ed863999259fff037762fa1469bebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 05/23] fix: generate a token_invalidated event if there is no
 refresh token

The token was discarded without the user ever being told.
---
 src/server/refresher.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 8959180..bfc14dc 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -71,7 +71,12 @@ impl Refresher {
                         let act_name = ct_lk.account(act_id).name.clone();
                         match refresher.inner_refresh(&pstate, ct_lk, act_id) {
                             RefreshKind::AccountOrTokenStateChanged => (),
-                            RefreshKind::NoRefreshToken => (),
+                            RefreshKind::NoRefreshToken => {
+                                info!("No refresh token for {act_name}");
+                                pstate
+                                    .eventer
+                                    .token_event(act_name, TokenEvent::Invalidated);
+                            }
                             RefreshKind::PermanentError(msg) => {
                                 info!("Permanent refresh error for {act_name}: {msg}");
                                 pstate
-- 
2.43.0


From c7e906e9cbb42665b8b7ba468f829190438970de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 06/23] fix: report authentication as failed if the expiry
 can't be represented

The account was left pending, with no way of it ever being completed, and the
user was not notified.
---
 src/server/http_server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index c232e0e..1296fc1 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -219,7 +219,14 @@ fn request<T: Read + Write>(
     ) {
         (Some("Bearer"), Some(expires_in), Some(access_token), refresh_token) => {
             let now = Instant::now();
-            let expiry = expiry_instant(&ct_lk, act_id, now, expires_in)?;
+            let expiry = match expiry_instant(&ct_lk, act_id, now, expires_in) {
+                Ok(x) => x,
+                Err(e) => {
+                    drop(ct_lk);
+                    fail(pstate, act_id, &e.to_string())?;
+                    return Ok(());
+                }
+            };
             let act_name = ct_lk.account(act_id).name.to_owned();
             ct_lk.tokenstate_replace(
                 act_id,
-- 
2.43.0


From 399a49b425a0982a8507ef62ea73082e9d535fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 07/23] fix: discard all queued events if there is no
 token_event_cmd

Only one event was discarded, the remainder being left in the queue to be
(wrongly) reported after an arbitrary amount of time.
---
 src/server/eventer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/eventer.rs b/src/server/eventer.rs
index 0be2e67..490fe2b 100644
--- a/src/server/eventer.rs
+++ b/src/server/eventer.rs
@@ -71,7 +71,7 @@ impl Eventer {
                 {
                     token_event_cmd
                 } else {
-                    break;
+                    continue;
                 };
                 match env::var("SHELL") {
                     Ok(s) => {
-- 
2.43.0


From 653d1520ccdd4a8a90117a508bceb3527c072cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 08/23] fix: don't constantly notify the user if
 auth_notify_interval is huge

---
 src/server/notifier.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index 9f362b5..fc76003 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -66,10 +66,11 @@ impl Notifier {
                 } = ct_lk.tokenstate(act_id)
                 {
                     if let Some(t) = last_notification {
-                        if let Some(t) = t.checked_add(notify_interval) {
-                            if t > now {
-                                continue;
-                            }
+                        // If the time of the next notification can't be represented, it is never
+                        // due.
+                        match t.checked_add(notify_interval) {
+                            Some(t) if t <= now => (),
+                            _ => continue,
                         }
                     }
                     let url = url.clone();
-- 
2.43.0


From cccf24d25aada65bc39980cd6d1db80ab5325af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 09/23] fix: don't constantly retry refreshing if refresh_retry
 is huge

---
 src/server/refresher.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index bfc14dc..1537980 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -399,9 +399,9 @@ impl Refresher {
                     //      expiry).
                     // If the second case occurs, we assume that the user knows that the token
                     // really needs refreshing, and we treat the token as if it had expired.
-                    if let Some(t) = lra.checked_add(act.refresh_retry(ct_lk.config())) {
-                        return Some(t.to_owned());
-                    }
+                    //
+                    // If the time of the next attempt can't be represented, it is never due.
+                    return lra.checked_add(act.refresh_retry(ct_lk.config()));
                 }
 
                 let mut expiry = access_token_expiry
-- 
2.43.0


From 04ec11f414be9a2328e636872d15776bc570e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 10/23] fix: don't ignore 'login_hint'

The deprecated 'login_hint' attribute is documented as being equivalent to an
'auth_uri_fields' entry, but its value was discarded.
---
 src/config.rs               | 20 +++++++++++++++++---
 src/server/request_token.rs |  3 ++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index ac01eb8..aee942c 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -348,6 +348,9 @@ pub struct Account {
     pub auth_uri_fields: Vec<(String, String)>,
     pub client_id: String,
     pub client_secret: Option<String>,
+    /// The value of the deprecated `login_hint` attribute: use [Account::all_auth_uri_fields] to
+    /// obtain this as part of the other authorisation URI fields.
+    login_hint: Option<String>,
     redirect_uri: String,
     refresh_at_least: Option<Duration>,
     refresh_before_expiry: Option<Duration>,
@@ -488,6 +491,7 @@ impl Account {
             auth_uri_fields: auth_uri_fields.unwrap_or_default(),
             client_id,
             client_secret,
+            login_hint,
             redirect_uri: redirect_uri.unwrap_or_else(|| "http://localhost/".to_owned()),
             refresh_at_least,
             refresh_before_expiry,
@@ -497,6 +501,16 @@ impl Account {
         })
     }
 
+    /// Return all the fields that should be added to the authorisation URI: `auth_uri_fields`
+    /// followed by, if it was specified, the (deprecated) `login_hint`.
+    pub fn all_auth_uri_fields(&self) -> Vec<(String, String)> {
+        let mut fields = self.auth_uri_fields.clone();
+        if let Some(x) = &self.login_hint {
+            fields.push(("login_hint".to_owned(), x.clone()));
+        }
+        fields
+    }
+
     /// Are the security relevant parts of this `Account` the same as `other`?
     ///
     /// Note that this is a weaker condition than "is `self` equal to `other`" because there are
@@ -510,7 +524,7 @@ impl Account {
         // sorry: if in doubt, it is better to have more, rather than fewer, fields compared here.
         self.name == other.name
             && self.auth_uri == other.auth_uri
-            && self.auth_uri_fields == other.auth_uri_fields
+            && self.all_auth_uri_fields() == other.all_auth_uri_fields()
             && self.client_id == other.client_id
             && self.client_secret == other.client_secret
             && self.redirect_uri == other.redirect_uri
@@ -521,7 +535,7 @@ impl Account {
     pub fn dump(&self) -> AccountDump {
         AccountDump {
             auth_uri: self.auth_uri.clone(),
-            auth_uri_fields: self.auth_uri_fields.clone(),
+            auth_uri_fields: self.all_auth_uri_fields(),
             client_id: self.client_id.clone(),
             client_secret: self.client_secret.clone(),
             redirect_uri: self.redirect_uri.clone(),
@@ -536,7 +550,7 @@ impl Account {
     /// `Account`'s tokenstate from a dump.
     pub fn secure_restorable(&self, act_dump: &AccountDump) -> bool {
         self.auth_uri == act_dump.auth_uri
-            && self.auth_uri_fields == act_dump.auth_uri_fields
+            && self.all_auth_uri_fields() == act_dump.auth_uri_fields
             && self.client_id == act_dump.client_id
             && self.client_secret == act_dump.client_secret
             && self.redirect_uri == act_dump.redirect_uri
diff --git a/src/server/request_token.rs b/src/server/request_token.rs
index 7d524af..ac22c75 100644
--- a/src/server/request_token.rs
+++ b/src/server/request_token.rs
@@ -47,7 +47,8 @@ pub fn request_token(
     if !act.scopes.is_empty() {
         params.push(("scope", scopes_join.as_str()));
     }
-    for (k, v) in &act.auth_uri_fields {
+    let auth_uri_fields = act.all_auth_uri_fields();
+    for (k, v) in &auth_uri_fields {
         params.push((k.as_str(), v.as_str()));
     }
     let url = Url::parse_with_params(ct_lk.account(act_id).auth_uri.as_str(), &params)?;
-- 
2.43.0


From 2ec9a3968ba74179c0e8b8a39c94a922002fb26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 11/23] fix: enforce the maximum HTTP request size for overly
 long lines

The size was only checked after a line was read, so a request line or header
of unbounded length led to unbounded memory use.
---
 src/server/http_server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index 1296fc1..426ed92 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -287,7 +287,9 @@ fn fail(
 /// A very literal, and rather unforgiving, implementation of RFC2616 (HTTP/1.1), returning the URL
 /// of GET requests: returns `Err` for anything else.
 fn parse_get<T: Read + Write>(stream: &mut T, is_https: bool) -> Result<Url, Box<dyn Error>> {
-    let mut rdr = BufReader::new(stream);
+    // Individual lines can be arbitrarily long, so make sure that we never read more than
+    // `MAX_HTTP_REQUEST_SIZE` bytes in total.
+    let mut rdr = BufReader::new(stream.take(MAX_HTTP_REQUEST_SIZE as u64));
     let mut req_line = String::new();
     rdr.read_line(&mut req_line)?;
     let mut http_req_size = req_line.len();
-- 
2.43.0


From 383b5f05c5ec00acbe2ea28764027d97a9a588d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 12/23] fix: determine the scheme of 'redirect_uri' from the
 parsed URI

URIs such as 'HTTPS://...' were not checked against 'http_listen' /
'https_listen'.
---
 src/config.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index aee942c..c41196a 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -206,14 +206,14 @@ impl Config {
         }
 
         for (act_name, act) in &accounts {
-            if act.redirect_uri.starts_with("https") {
+            if act.is_https_redirect() {
                 match https_listen {
                     Some(Some(_)) | None => (),
                     Some(None) => {
                         return Err(format!("Account {act_name} has an 'https' redirect but the HTTPS server is set to 'none'"));
                     }
                 }
-            } else if act.redirect_uri.starts_with("http") {
+            } else {
                 match http_listen {
                     Some(Some(_)) | None => (),
                     Some(None) => {
@@ -558,6 +558,12 @@ impl Account {
             && self.token_uri == act_dump.token_uri
     }
 
+    /// Is this account's redirect URI an HTTPS (rather than HTTP) URI?
+    fn is_https_redirect(&self) -> bool {
+        // We checked that the URI is valid when parsing the config.
+        Url::parse(&self.redirect_uri).is_ok_and(|x| x.scheme() == "https")
+    }
+
     pub fn redirect_uri(
         &self,
         http_port: Option<u16>,
@@ -565,7 +571,7 @@ impl Account {
     ) -> Result<Url, Box<dyn Error>> {
         assert!(http_port.is_some() || https_port.is_some());
         let mut url = Url::parse(&self.redirect_uri)?;
-        if https_port.is_some() && self.redirect_uri.to_lowercase().starts_with("https") {
+        if https_port.is_some() && self.is_https_redirect() {
             url.set_port(https_port)
                 .map_err(|_| "Cannot set https port")?;
         } else {
-- 
2.43.0


From fa796e7548879110dd23a772e803284f6d226b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 13/23] fix: don't panic if an empty list of scopes/fields is
 repeated

---
 src/config.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index c41196a..f9b6385 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -385,7 +385,6 @@ impl Account {
                 }
                 config_ast::AccountField::AuthUriFields(span, spans) => {
                     if auth_uri_fields.is_some() {
-                        debug_assert!(!spans.is_empty());
                         return Err(error_at_span(
                             lexer,
                             span,
@@ -453,7 +452,6 @@ impl Account {
                 }
                 config_ast::AccountField::Scopes(span, spans) => {
                     if scopes.is_some() {
-                        debug_assert!(!spans.is_empty());
                         return Err(error_at_span(
                             lexer,
                             span,
-- 
2.43.0


From 70fe3530d346ee524fcd1d77a0bed55bf0e3bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 14/23] fix: report an error if a dump can't be written to
 stdout

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 5cae972..1dc0860 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -159,7 +159,11 @@ fn main() {
                 .unwrap();
             match user_sender::dump(&cache_path) {
                 Ok(d) => {
-                    stdout().write_all(&d).ok();
+                    let mut out = stdout();
+                    if let Err(e) = out.write_all(&d).and_then(|()| out.flush()) {
+                        error!("Can't write dump: {e:}");
+                        process::exit(1);
+                    }
                 }
                 Err(e) => {
                     error!("{e:}");
-- 
2.43.0


From 1af6a879391f53400ff3051a6fdcca80898d8907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 15/23] fix: update the socket's timestamps when daemonised

The thread which does this was started before daemonising, and threads don't
survive fork().
---
 src/main.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1dc0860..7df04ad 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -306,22 +306,6 @@ fn main() {
                 fs::remove_file(&sock_path).ok();
             }
 
-            // The XDG spec says of `$XDG_RUNTIME_DIR` (where our socket file will live):
-            //   Files in this directory MAY be subjected to periodic clean-up. To ensure that your files
-            //   are not removed, they should have their access time timestamp modified at least once every
-            //   6 hours of monotonic time
-            let sock_path_cl = sock_path.clone();
-            thread::spawn(move || loop {
-                thread::sleep(Duration::from_secs(6 * 60 * 60));
-                let _ = utimensat(
-                    None,
-                    &sock_path_cl,
-                    &TimeSpec::UTIME_NOW,
-                    &TimeSpec::UTIME_NOW,
-                    UtimensatFlags::NoFollowSymlink,
-                );
-            });
-
             let conf_path = conf_path(&matches);
             let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));
 
@@ -351,6 +335,24 @@ fn main() {
                     .init()
                     .unwrap();
             }
+            // The XDG spec says of `$XDG_RUNTIME_DIR` (where our socket file will live):
+            //   Files in this directory MAY be subjected to periodic clean-up. To ensure that your files
+            //   are not removed, they should have their access time timestamp modified at least once every
+            //   6 hours of monotonic time
+            // Note that this thread must be started after daemonisation, because threads do not survive
+            // forking.
+            let sock_path_cl = sock_path.clone();
+            thread::spawn(move || loop {
+                thread::sleep(Duration::from_secs(6 * 60 * 60));
+                let _ = utimensat(
+                    None,
+                    &sock_path_cl,
+                    &TimeSpec::UTIME_NOW,
+                    &TimeSpec::UTIME_NOW,
+                    UtimensatFlags::NoFollowSymlink,
+                );
+            });
+
             if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {
                 error!("{e:}");
                 process::exit(1);
-- 
2.43.0


From cb10d40f1de09cb42dce825a6456c8e7f7422ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 16/23] fix: a token whose refresh_before_expiry is
 unrepresentable was never refreshed

The fall-back time was read afresh every time it was asked for, so it was always later than the refresher
thread's notion of 'now': the thread kept a CPU busy without ever refreshing the token.
---
 src/server/refresher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 1537980..4abe6ee 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -406,7 +406,7 @@ impl Refresher {
 
                 let mut expiry = access_token_expiry
                     .checked_sub(act.refresh_before_expiry(ct_lk.config()))
-                    .unwrap_or_else(|| cmp::min(Instant::now(), *access_token_expiry));
+                    .unwrap_or_else(|| cmp::min(*access_token_obtained, *access_token_expiry));
 
                 // There is no concept of Instant::MAX, so if `access_token_obtained + d` exceeds
                 // Instant's bounds, there's nothing we can fall back on.
-- 
2.43.0


From fb22149ca711c62cae6bbfe7549a61cb79e9b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 17/23] fix: don't accept a leading comma in lists of
 scopes/fields

---
 src/config.y | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/config.y b/src/config.y
index f09238a..b8be1f6 100644
--- a/src/config.y
+++ b/src/config.y
@@ -47,23 +47,31 @@ AccountField -> Result<AccountField, ()>:
   ;
 
 AuthUriFields -> Result<Vec<(Span, Span)>, ()>:
-    AuthUriFields "," "STRING" ":" "STRING" {
+    AuthUriFieldList { $1 }
+  | { Ok(vec![]) }
+  ;
+
+AuthUriFieldList -> Result<Vec<(Span, Span)>, ()>:
+    AuthUriFieldList "," "STRING" ":" "STRING" {
       let mut spans = $1?;
       spans.push((map_err($3)?, map_err($5)?));
       Ok(spans)
     }
   | "STRING" ":" "STRING" { Ok(vec![(map_err($1)?, map_err($3)?)]) }
-  | { Ok(vec![]) }
   ;
 
 Scopes -> Result<Vec<Span>, ()>:
-    Scopes "," "STRING" {
+    ScopeList { $1 }
+  | { Ok(vec![]) }
+  ;
+
+ScopeList -> Result<Vec<Span>, ()>:
+    ScopeList "," "STRING" {
       let mut spans = $1?;
       spans.push(map_err($3)?);
       Ok(spans)
     }
   | "STRING" { Ok(vec![map_err($1)?]) }
-  | { Ok(vec![]) }
   ;
 
 // This rule helps turn lexing errors into parsing errors.
-- 
2.43.0


From 87ff6015e19c184a89d63b9ba97900f80e582f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 18/23] fix: queue token events in the order the changes
 happened

---
 src/server/http_server.rs | 12 ++++++------
 src/server/mod.rs         |  4 ++--
 src/server/refresher.rs   | 25 +++++++++++++++----------
 3 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index 426ed92..eb5bc9c 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -240,9 +240,11 @@ fn request<T: Read + Write>(
                     refresh_token: refresh_token.map(|x| x.to_owned()),
                 },
             );
+            // Events must be queued before the lock is given up, so that they are queued in the order
+            // the changes happened.
+            pstate.eventer.token_event(act_name, TokenEvent::New);
             drop(ct_lk);
             pstate.refresher.notify_changes();
-            pstate.eventer.token_event(act_name, TokenEvent::New);
         }
         _ => {
             drop(ct_lk);
@@ -271,15 +273,13 @@ fn fail(
             "Authentication for {} failed: {msg:}",
             ct_lk.account(act_id).name
         );
-        drop(ct_lk);
-        pstate
-            .notifier
-            .notify_error(&pstate, act_name.clone(), msg)?;
         if is_active {
             pstate
                 .eventer
-                .token_event(act_name, TokenEvent::Invalidated);
+                .token_event(act_name.clone(), TokenEvent::Invalidated);
         }
+        drop(ct_lk);
+        pstate.notifier.notify_error(&pstate, act_name, msg)?;
     }
     Ok(())
 }
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 03dc83f..27900de 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -175,11 +175,11 @@ fn request(pstate: Arc<AuthenticatorState>, mut stream: UnixStream) -> Result<()
             match ct_lk.validate_act_name(act_name) {
                 Some(act_id) => {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
-                    drop(ct_lk);
-
                     pstate
                         .eventer
                         .token_event(act_name.to_owned(), TokenEvent::Revoked);
+                    drop(ct_lk);
+
                     stream.write_all(b"ok:")?;
                     return Ok(());
                 }
diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 4abe6ee..bad924e 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -73,19 +73,12 @@ impl Refresher {
                             RefreshKind::AccountOrTokenStateChanged => (),
                             RefreshKind::NoRefreshToken => {
                                 info!("No refresh token for {act_name}");
-                                pstate
-                                    .eventer
-                                    .token_event(act_name, TokenEvent::Invalidated);
                             }
                             RefreshKind::PermanentError(msg) => {
                                 info!("Permanent refresh error for {act_name}: {msg}");
-                                pstate
-                                    .eventer
-                                    .token_event(act_name, TokenEvent::Invalidated);
                             }
                             RefreshKind::Refreshed => {
                                 refresher.notify_changes();
-                                pstate.eventer.token_event(act_name, TokenEvent::Refresh);
                             }
                             RefreshKind::TransitoryError(act_id, msg) => {
                                 ct_lk = pstate.ct_lock();
@@ -130,12 +123,12 @@ impl Refresher {
                                                                 act_id,
                                                                 TokenState::Empty,
                                                             );
-                                                            drop(ct_lk);
                                                             info!("Permanent refresh error for {act_name} : {e}");
                                                             pstate.eventer.token_event(
                                                                 act_name,
                                                                 TokenEvent::Invalidated,
                                                             );
+                                                            drop(ct_lk);
                                                         }
                                                     }
                                                 };
@@ -207,8 +200,8 @@ impl Refresher {
     }
 
     /// For a [TokenState::Active] token for `act_id`, refresh it, blocking until the token is
-    /// refreshed or an error occurred. This function must be called with a [TokenState::Active]
-    /// tokenstate.
+    /// refreshed or an error occurred, and queuing the token event (if any) that results. This
+    /// function must be called with a [TokenState::Active] tokenstate.
     ///
     /// # Panics
     ///
@@ -219,6 +212,10 @@ impl Refresher {
         mut ct_lk: CTGuard,
         mut act_id: AccountId,
     ) -> RefreshKind {
+        // Token events are queued while the lock is held so that they are queued in the same order as
+        // the changes they tell of.
+        let act_name = ct_lk.account(act_id).name.clone();
+        let token_event = |kind| pstate.eventer.token_event(act_name.clone(), kind);
         let mut new_ts = ct_lk.tokenstate(act_id).clone();
         let refresh_token = match new_ts {
             TokenState::Active {
@@ -234,6 +231,7 @@ impl Refresher {
                 }
                 None => {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    token_event(TokenEvent::Invalidated);
                     return RefreshKind::NoRefreshToken;
                 }
             },
@@ -274,6 +272,7 @@ impl Refresher {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    token_event(TokenEvent::Invalidated);
                     return RefreshKind::PermanentError(reason);
                 } else {
                     return RefreshKind::AccountOrTokenStateChanged;
@@ -290,6 +289,7 @@ impl Refresher {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    token_event(TokenEvent::Invalidated);
                     return RefreshKind::PermanentError(e.to_string());
                 } else {
                     return RefreshKind::AccountOrTokenStateChanged;
@@ -303,6 +303,7 @@ impl Refresher {
                     let mut ct_lk = pstate.ct_lock();
                     if ct_lk.is_act_id_valid(act_id) {
                         let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                        token_event(TokenEvent::Invalidated);
                         let msg =
                             format!("Refreshing {} failed: {}", ct_lk.account(act_id).name, e);
                         return RefreshKind::PermanentError(msg);
@@ -316,6 +317,7 @@ impl Refresher {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
                     let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    token_event(TokenEvent::Invalidated);
                     let msg = format!("Refreshing {} failed: {e}", ct_lk.account(act_id).name);
                     return RefreshKind::PermanentError(msg);
                 } else {
@@ -342,6 +344,7 @@ impl Refresher {
                         Ok(x) => x,
                         Err(e) => {
                             ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                            token_event(TokenEvent::Invalidated);
                             return RefreshKind::PermanentError(format!("{e}"));
                         }
                     };
@@ -357,6 +360,7 @@ impl Refresher {
                             refresh_token,
                         },
                     );
+                    token_event(TokenEvent::Refresh);
                     drop(ct_lk);
                     RefreshKind::Refreshed
                 } else {
@@ -367,6 +371,7 @@ impl Refresher {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    token_event(TokenEvent::Invalidated);
                     RefreshKind::PermanentError("Received JSON in unexpected format".to_string())
                 } else {
                     RefreshKind::AccountOrTokenStateChanged
-- 
2.43.0


From 170c8265c81be425e15cb5d9e890075638f33ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 19/23] fix: don't fail if another pizauth process creates the
 cache directory first

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 7df04ad..a87bced 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -82,7 +82,11 @@ fn cache_path() -> PathBuf {
 
     let md = |p: &PathBuf| {
         if !p.exists() {
-            fs::create_dir(p).unwrap_or_else(|e| fatal(&format!("Can't create cache dir: {e}")));
+            match fs::create_dir(p) {
+                // Another pizauth process might have created the directory in the meantime.
+                Err(e) if !p.is_dir() => fatal(&format!("Can't create cache dir: {e}")),
+                _ => (),
+            }
         }
         fs::set_permissions(p, PermissionsExt::from_mode(0o700)).unwrap_or_else(|_| {
             fatal(&format!(
-- 
2.43.0


From 93ec85f46b495cf5d55c162b64d4c9e6bdd1c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 20/23] fix: let only one server at a time check for and create
 the socket

Two servers started at the same time could both find a dead socket; the
slower one then removed the socket the faster one had just bound, so that
two servers ran for the same cache directory. Hold an exclusive lock on the
cache directory from the check until the new socket can be connected to.
---
 src/main.rs       | 22 ++++++++++++++++------
 src/server/mod.rs | 21 ++++++++++++++++++---
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a87bced..47d6860 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -10,8 +10,8 @@ mod user_sender;
 
 use std::{
     env::{self, current_exe},
-    fs,
-    io::{stdout, Write},
+    fs::{self, File},
+    io::{self, stdout, Write},
     os::unix::{fs::PermissionsExt, net::UnixStream},
     path::PathBuf,
     process, thread,
@@ -20,9 +20,12 @@ use std::{
 
 use getopts::Options;
 use log::error;
-use nix::sys::{
-    stat::{utimensat, UtimensatFlags},
-    time::TimeSpec,
+use nix::{
+    fcntl::{Flock, FlockArg},
+    sys::{
+        stat::{utimensat, UtimensatFlags},
+        time::TimeSpec,
+    },
 };
 #[cfg(target_os = "openbsd")]
 use pledge::pledge;
@@ -300,6 +303,13 @@ fn main() {
                 usage();
             }
 
+            // Only one server at a time can check for, and then create, the socket: otherwise a server
+            // might remove the socket another server has just created.
+            let lock = File::open(&cache_path)
+                .and_then(|f| {
+                    Flock::lock(f, FlockArg::LockExclusive).map_err(|(_, e)| io::Error::from(e))
+                })
+                .unwrap_or_else(|e| fatal(&format!("Cannot lock cache dir: {e}")));
             let sock_path = sock_path(&cache_path);
             if sock_path.exists() {
                 // Is an existing authenticator running?
@@ -357,7 +367,7 @@ fn main() {
                 );
             });
 
-            if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {
+            if let Err(e) = server::server(conf_path, conf, cache_path.as_path(), lock) {
                 error!("{e:}");
                 process::exit(1);
             }
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 27900de..ecc0eb2 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -8,6 +8,7 @@ mod state;
 use std::{
     collections::HashMap,
     error::Error,
+    fs::File,
     io::{Read, Write},
     os::unix::net::{UnixListener, UnixStream},
     path::{Path, PathBuf},
@@ -18,7 +19,10 @@ use std::{
 use boot_time::Instant;
 use chrono::{DateTime, Datelike, Local};
 use log::warn;
-use nix::sys::signal::{raise, Signal};
+use nix::{
+    fcntl::Flock,
+    sys::signal::{raise, Signal},
+};
 #[cfg(target_os = "openbsd")]
 use pledge::pledge;
 #[cfg(target_os = "openbsd")]
@@ -330,7 +334,13 @@ fn system_time_to_rfc2822(st: SystemTime) -> Option<String> {
     is_representable(dt.year()).then(|| dt.to_rfc2822())
 }
 
-pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(), Box<dyn Error>> {
+/// Start a server. `startup_lock` is held until the server's socket can be connected to.
+pub fn server(
+    conf_path: PathBuf,
+    conf: Config,
+    cache_path: &Path,
+    startup_lock: Flock<File>,
+) -> Result<(), Box<dyn Error>> {
     let sock_path = sock_path(cache_path);
 
     #[cfg(target_os = "openbsd")]
@@ -357,7 +367,11 @@ pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(),
     unveil("", "")?;
 
     #[cfg(target_os = "openbsd")]
-    pledge("stdio rpath wpath inet fattr unix dns proc exec", None).unwrap();
+    pledge(
+        "stdio rpath wpath inet fattr unix dns flock proc exec",
+        None,
+    )
+    .unwrap();
 
     let (http_port, http_state) = match http_server::http_server_setup(&conf)? {
         Some((x, y)) => (Some(x), Some(y)),
@@ -404,6 +418,7 @@ pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(),
     notifier.notifier(Arc::clone(&pstate))?;
 
     let listener = UnixListener::bind(sock_path)?;
+    drop(startup_lock);
     for stream in listener.incoming().flatten() {
         let pstate = Arc::clone(&pstate);
         if let Err(e) = request(pstate, stream) {
-- 
2.43.0


From 24d771918a79e4e14359b63f0054c5a23a6459b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:33 +0000
Subject: [PATCH 21/23] fix: don't panic if refresh_before_expiry reaches very
 far back

---
 src/server/refresher.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index bad924e..fc96e91 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -409,9 +409,12 @@ impl Refresher {
                     return lra.checked_add(act.refresh_retry(ct_lk.config()));
                 }
 
+                // Times long before the token was obtained can't be represented, or can't be compared
+                // to the current time without overflowing: either way, the token is due at once.
+                let earliest = cmp::min(*access_token_obtained, *access_token_expiry);
                 let mut expiry = access_token_expiry
                     .checked_sub(act.refresh_before_expiry(ct_lk.config()))
-                    .unwrap_or_else(|| cmp::min(*access_token_obtained, *access_token_expiry));
+                    .map_or(earliest, |t| cmp::max(t, earliest));
 
                 // There is no concept of Instant::MAX, so if `access_token_obtained + d` exceeds
                 // Instant's bounds, there's nothing we can fall back on.
-- 
2.43.0


From 24eb3d00574edf57d75396dffc810c5cbf5a8e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:14 +0000
Subject: [PATCH 22/23] fix: report an error if the server doesn't send a dump

'pizauth dump' wrote nothing and exited with 0 if the server couldn't create
a dump (or disappeared before sending it), so that, for example,
'pizauth dump | age ... -o state' overwrote a good dump with an empty one.
---
 src/user_sender.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/user_sender.rs b/src/user_sender.rs
index 22d0ab7..be793a1 100644
--- a/src/user_sender.rs
+++ b/src/user_sender.rs
@@ -19,6 +19,10 @@ pub fn dump(cache_path: &Path) -> Result<Vec<u8>, Box<dyn Error>> {
 
     let mut buf = Vec::new();
     stream.read_to_end(&mut buf)?;
+    // A dump is never empty: if we've received nothing, the server couldn't create one.
+    if buf.is_empty() {
+        return Err("Server did not send a dump".into());
+    }
     Ok(buf)
 }
 
-- 
2.43.0


From 13fac3c9277c2b0ca1a23db390dfa8dd433b4901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:33 +0000
Subject: [PATCH 23/23] fix: don't fail to dump tokens whose times precede the
 epoch

If the system clock is set to (nearly) 1970, as it is on machines without a
battery-backed clock, such times can't be serialized, and 'pizauth dump' failed
for all accounts.
---
 src/server/state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/state.rs b/src/server/state.rs
index 0aee8d2..7acae90 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -510,7 +510,9 @@ impl TokenState {
             } else {
                 t = None;
             }
+            // Times before the epoch can't be serialized.
             t.unwrap_or_else(SystemTime::now)
+                .max(SystemTime::UNIX_EPOCH)
         }
 
         match self {
-- 
2.43.0

