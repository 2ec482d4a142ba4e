From b5d4b287eea9329022e03d79c5c65fae0ab4fb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 01/16] fix: check the grant type of clients authenticated by
 assertion

---
 token_endpoint.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/token_endpoint.go b/token_endpoint.go
index 32c4f2b..43eabf6 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -266,6 +266,14 @@ func (te *TokenEndpoint) validateClientByAssertion(w http.ResponseWriter,
 		te.fail(w, err)
 		return nil, false
 	}
+	if !c.CanUseGrantType(gt) {
+
+		te.logger.Info(log.TokenEndpointLog(gt, log.UnauthorizedGrantType,
+			map[string]string{"client_id": c.GetId()}, "unauthorized 'grant_type'."))
+
+		te.fail(w, oer.NewOAuthSimpleError(oer.ErrUnauthorizedClient))
+		return nil, false
+	}
 
 	return c, true
 }
-- 
2.43.0


From ea2953e1ba9ae0663812fd0a97806decdfaa1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 02/16] fix: don't panic on a malformed client assertion

---
 assertion/error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/assertion/error.go b/assertion/error.go
index e321c91..996e4d3 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -46,9 +46,14 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 
 		if ve.Errors&jwt.ValidationErrorMalformed == jwt.ValidationErrorMalformed {
 
+			// a malformed client assertion doesn't tell which client it is for
+			params := map[string]string{"assertion": a}
+			if c != nil {
+				params["client_id"] = c.GetId()
+			}
 			logger.Debug(log.TokenEndpointLog(gt,
 				log.AssertionConditionMismatch,
-				map[string]string{"assertion": a, "client_id": c.GetId()},
+				params,
 				"invalid 'assertion' format"))
 
 			return oer.NewOAuthError(oer.ErrInvalidGrant,
-- 
2.43.0


From da4f10ae0b8654b4ec1a17237ce5d504bb6fa4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 03/16] fix: check the auth info, not the token, after
 FindActiveAuthInfoById

---
 resource_protector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource_protector.go b/resource_protector.go
index f22331e..13abdb5 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -221,7 +221,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 			return false
 		}
 	} else {
-		if at == nil {
+		if info == nil {
 
 			rp.logger.Error(log.ProtectedResourceLog(r.URL.Path, log.InterfaceError,
 				map[string]string{"method": "FindActiveAuthInfoById"},
-- 
2.43.0


From ff986ca215161d261fcc697331da73ffc02f46c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 04/16] fix: accept access tokens from body and query when
 configured to

---
 resource_protector.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/resource_protector.go b/resource_protector.go
index 13abdb5..c47412b 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -52,19 +52,9 @@ func (rp *ResourceProtector) SetErrorURIBulder(builder oer.OAuthErrorURIBuilder)
 
 func (rp *ResourceProtector) findTokenFromRequest(r *http.Request) string {
 	header := r.Header.Get("Authorization")
-	if header == "" {
-		return ""
-	}
 	parts := strings.Split(header, " ")
-	if len(parts) < 2 {
-		return ""
-	}
-	if strings.ToLower(parts[0]) != "bearer" {
-		return ""
-	}
-	token := parts[1]
-	if token != "" {
-		return token
+	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
+		return parts[1]
 	}
 	switch rp.tokenAcceptanceMethod {
 	case FromHeader:
-- 
2.43.0


From c073ef299c0dfb8c5e8152257749d721e0775925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 05/16] fix: treat every prompt that consists of 'none' as
 prompt=none

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index f96be6f..445e4be 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -549,7 +549,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		LoginHint:    r.FormValue("login_hint"),
 	}
 
-	if req.Prompt == prompt.None {
+	if prompt.IncludeNone(req.Prompt) {
 
 		policy := clnt.GetNonePromptPolicy()
 
-- 
2.43.0


From 15921cd5d8c221d763385f2c2d1f7297e41553f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 06/16] fix: honour max_age on prompt=none requests

---
 authorization_endpoint.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 445e4be..26cbf15 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -624,7 +624,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeSilently(callbacks, r, rh, info, req)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -711,7 +711,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeSilently(callbacks, r, rh, info, req)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -820,7 +820,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeSilently(callbacks, r, rh, info, req)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -1026,6 +1026,32 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 	return a.complete(callbacks, r, rh, info, req)
 }
 
+// completeSilently completes a 'prompt=none' request, unless 'max_age' requires the user to log in again.
+func (a *AuthorizationEndpoint) completeSilently(
+	callbacks bridge.AuthorizationCallbacks,
+	r *http.Request,
+	rh authorization.ResponseHandler,
+	info bridge.AuthInfo, req *authorization.Request) bool {
+	if req.MaxAge > 0 {
+		authTime, err := callbacks.GetAuthTime()
+		if err != nil {
+			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+				log.InterfaceError,
+				map[string]string{
+					"method": "GetAuthTime",
+				},
+				err.Error()))
+			rh.Error(req.RedirectURI, "server_error", "", req.State)
+			return false
+		}
+		if req.MaxAge < a.currentTime().Unix()-authTime {
+			rh.Error(req.RedirectURI, "login_required", "", req.State)
+			return false
+		}
+	}
+	return a.complete(callbacks, r, rh, info, req)
+}
+
 func (a *AuthorizationEndpoint) complete(
 	callbacks bridge.AuthorizationCallbacks,
 	r *http.Request,
-- 
2.43.0


From 5a06064a7b0bb0c0ff81a9cc7aba533e589ac16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 07/16] fix: name the expires_in parameter of implicit flow
 responses

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 26cbf15..4595930 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1141,7 +1141,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 		at = t.GetAccessToken()
 		params["access_token"] = at
 		params["token_type"] = "bearer"
-		params["rexpires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
+		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
 	}
 
 	authTime, err := callbacks.GetAuthTime()
-- 
2.43.0


From 76103694103cdb259eecaaecf0d64ca6a5859c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 08/16] fix: answer server_error when the data interface
 returns (nil, nil)

---
 authorization_endpoint.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 4595930..aff1602 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1019,7 +1019,7 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 		return false
 	}
 	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
-	if serr != nil {
+	if serr != nil || info == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1119,7 +1119,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 	req *authorization.Request) bool {
 
 	clnt, serr := a.di.FindClientById(req.ClientId)
-	if serr != nil {
+	if serr != nil || clnt == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1134,7 +1134,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 	at := ""
 	if req.Flow.RequireAccessToken {
 		t, serr := a.di.CreateOAuthToken(info, false)
-		if serr != nil {
+		if serr != nil || t == nil {
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
@@ -1220,7 +1220,7 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 	}
 
 	clnt, serr := a.di.FindClientById(req.ClientId)
-	if serr != nil {
+	if serr != nil || clnt == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1237,7 +1237,7 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 	at := ""
 	if req.Flow.RequireAccessToken {
 		t, serr := a.di.CreateOAuthToken(info, false)
-		if serr != nil {
+		if serr != nil || t == nil {
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
-- 
2.43.0


From 2f491ae4ea77376cf424bcc12601340eef24bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 09/16] fix: escape the redirect uri and parameter names in
 form_post pages

---
 authorization/response.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/authorization/response.go b/authorization/response.go
index 61358d0..3434fef 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -124,9 +124,9 @@ func (h *HTMLResponseHandler) Error(uri, typ, desc, state string) {
 
 func (h *HTMLResponseHandler) render(uri string, params map[string]string) {
 	doc := `<html><head><title>Submit This Form</title></head><body onload="javascript:document.forms[0].submit()">`
-	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, uri)
+	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, html.EscapeString(uri))
 	for k, v := range params {
-		doc = doc + fmt.Sprintf(`<input type="hidden" name="%s" value="%s" />`, k, html.EscapeString(v))
+		doc = doc + fmt.Sprintf(`<input type="hidden" name="%s" value="%s" />`, html.EscapeString(k), html.EscapeString(v))
 	}
 	doc = doc + `</form></body></html>`
 	h.w.Header().Set("Content-Type", "text/html; charset=UTF-8")
-- 
2.43.0


From ad641db3a2db62a3fce563ef2571445409af454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 10/16] fix: don't write passwords to the log

---
 grant/password.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/grant/password.go b/grant/password.go
index 0cdf6af..ef629f3 100644
--- a/grant/password.go
+++ b/grant/password.go
@@ -63,7 +63,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"user id not found."))
 
@@ -86,7 +85,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"interface returned ServerError."))
 
-- 
2.43.0


From 745148747341aeb8277dade841d8feb892b0e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 11/16] fix: refuse authorization codes whose session has
 expired

---
 grant/authorization_code.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/grant/authorization_code.go b/grant/authorization_code.go
index f3b29f6..91b752c 100644
--- a/grant/authorization_code.go
+++ b/grant/authorization_code.go
@@ -94,6 +94,16 @@ func AuthorizationCode() *GrantHandler {
 					return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
 				}
 			}
+			if sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix() {
+
+				logger.Info(log.TokenEndpointLog(TypeAuthorizationCode,
+					log.AuthSessionConditionMismatch,
+					map[string]string{"client_id": c.GetId()},
+					"expired code"))
+
+				return nil, oer.NewOAuthError(oer.ErrInvalidGrant,
+					"expired 'code'")
+			}
 			info, err := sdi.FindActiveAuthInfoById(sess.GetAuthId())
 			if err != nil {
 				if err.Type() == bridge.ErrFailed {
-- 
2.43.0


From 9c9dfbcad42f2a04e96fcdb3a171d687263041a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 12/16] fix: verify id_token_hint with the public part of the
 client's signing key

---
 authorization_endpoint.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index aff1602..2828cab 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1,6 +1,7 @@
 package goidc
 
 import (
+	"crypto"
 	"encoding/json"
 	"fmt"
 	"net/http"
@@ -727,7 +728,11 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			}
 
 			t, jwt_err := jwt.Parse(req.IdTokenHint, func(t *jwt.Token) (interface{}, error) {
-				return clnt.GetIdTokenKey(), nil
+				key := clnt.GetIdTokenKey()
+				if signer, ok := key.(crypto.Signer); ok {
+					return signer.Public(), nil
+				}
+				return key, nil
 			})
 
 			if jwt_err != nil {
-- 
2.43.0


From 89508a314718464af4e282ee1cbfad4252b8f008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 13/16] fix: don't panic on a redirect uri that can't be parsed

---
 authorization/response.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/authorization/response.go b/authorization/response.go
index 3434fef..bbd742d 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -33,7 +33,10 @@ type (
 )
 
 func (t ResponseParamType) Connector(uri string) string {
-	u, _ := url.Parse(uri)
+	u, err := url.Parse(uri)
+	if err != nil {
+		u = &url.URL{}
+	}
 	switch t {
 	case ParamTypeQuery:
 		if len(u.RawQuery) == 0 {
-- 
2.43.0


From 14b1ba1fe465b196446fac4c96c2ef437aa538e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 14/16] fix: label error and fatal log lines with their own
 level

---
 log/logger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/log/logger.go b/log/logger.go
index 4e804ce..b930836 100644
--- a/log/logger.go
+++ b/log/logger.go
@@ -42,9 +42,9 @@ func (level LogLevel) String() string {
 	case LogLevelWarn:
 		return "WARN"
 	case LogLevelError:
-		return "DEBUG"
+		return "ERROR"
 	case LogLevelFatal:
-		return "DEBUG"
+		return "FATAL"
 	default:
 		return ""
 	}
-- 
2.43.0


From 3ce697eacd83fc89e50dac7d78625414f49e1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 15/16] fix: token endpoint wrote its error URI into errors
 shared by grant handlers

---
 token_endpoint.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/token_endpoint.go b/token_endpoint.go
index 43eabf6..63756e7 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -425,7 +425,10 @@ func (te *TokenEndpoint) failWithAuthHeader(w http.ResponseWriter, err *oer.OAut
 	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=\"%s\"", te.realm))
 	setCommonResponseHeader(w)
 	if err.URI == "" && te.errorURIBuilder != nil {
-		err.URI = te.errorURIBuilder(err.Type)
+		// handlers may return a shared error, so it is left as it is
+		filled := *err
+		filled.URI = te.errorURIBuilder(err.Type)
+		err = &filled
 	}
 	w.WriteHeader(http.StatusUnauthorized)
 	w.Write(err.JSON())
@@ -434,7 +437,10 @@ func (te *TokenEndpoint) failWithAuthHeader(w http.ResponseWriter, err *oer.OAut
 func (te *TokenEndpoint) fail(w http.ResponseWriter, err *oer.OAuthError) {
 	setCommonResponseHeader(w)
 	if err.URI == "" && te.errorURIBuilder != nil {
-		err.URI = te.errorURIBuilder(err.Type)
+		// handlers may return a shared error, so it is left as it is
+		filled := *err
+		filled.URI = te.errorURIBuilder(err.Type)
+		err = &filled
 	}
 	w.WriteHeader(err.StatusCode())
 	w.Write(err.JSON())
-- 
2.43.0


From 2419b20a9ec25e60a41306d40f7727ccc501519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 16/16] fix: name the protected resource in its own log lines

---
 resource_protector.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resource_protector.go b/resource_protector.go
index c47412b..1a2cff3 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -98,7 +98,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 
 	if rt == "" {
 
-		rp.logger.Debug(log.TokenEndpointLog(r.URL.Path,
+		rp.logger.Debug(log.ProtectedResourceLog(r.URL.Path,
 			log.NoCredential,
 			map[string]string{},
 			"access_token not found in request."))
@@ -158,7 +158,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 	}
 
 	if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {
-		rp.logger.Info(log.TokenEndpointLog(r.URL.Path,
+		rp.logger.Info(log.ProtectedResourceLog(r.URL.Path,
 			log.NoEnabledAuthInfo,
 			map[string]string{
 				"access_token":            rt,
@@ -176,7 +176,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 	if err != nil {
 		if err.Type() == bridge.ErrFailed {
 
-			rp.logger.Info(log.TokenEndpointLog(r.URL.Path,
+			rp.logger.Info(log.ProtectedResourceLog(r.URL.Path,
 				log.NoEnabledAuthInfo,
 				map[string]string{
 					"method":       "FindActiveAuthInfoById",
@@ -199,7 +199,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 
 		} else {
 
-			rp.logger.Warn(log.TokenEndpointLog(r.URL.Path,
+			rp.logger.Warn(log.ProtectedResourceLog(r.URL.Path,
 				log.InterfaceServerError,
 				map[string]string{
 					"method":       "FindActiveAuthInfoById",
-- 
2.43.0

