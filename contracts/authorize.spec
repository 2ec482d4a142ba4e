# ---- the authorization endpoint ----------------------------------------------
# Authorize serves one authorization request, Complete finishes the request that
# Continue names after the user's consent, Cancel refuses it.

macro qid = form("client_id");
macro quri = form("redirect_uri");
macro qstate = form("state");
macro qmode = form("response_mode");
macro qrt = sorttok(form("response_type"));
macro qprompt = form("prompt");
macro rtcode = qrt == "code";
macro rtimplicit = qrt == "id_token" || qrt == "token" || qrt == "id_token token";
macro rthybrid = qrt == "code id_token" || qrt == "code token" || qrt == "code id_token token";
macro rtknown = form("response_type") != "" && (rtcode || rtimplicit || rthybrid);
macro rtid = qrt == "id_token" || qrt == "code id_token" || qrt == "id_token token" || qrt == "code id_token token";
macro rtaccess = qrt == "token" || qrt == "code token" || qrt == "id_token token" || qrt == "code id_token token";
macro ftype = if rtcode then 0 else if rtimplicit then 1 else 2;

# the client of the request, as the store reports it
macro theclient(f) = f.clientId == qid && f.err == nil && f.res != nil;
macro confirmed(f) = qid != "" && quri != "" && theclient(f) && f.res.CanUseRedirectURI(quri);
macro first(f) = confirmed(f) && (all g:FindClientById . !(g < f));

contract Authorize for C12 {
  clause onlyregistered: all p:Respond . p.uri == quri && (some f:FindClientById . f < p && confirmed(f));
  clause noresponse: all a:Redirect|Write|WriteHeader . false;
  clause lookup: all f:FindClientById . f.clientId == qid && qid != "";
  clause local: (all f:FindClientById . !confirmed(f)) ==> (some s:ShowErrorScreen . true);
  clause kept: all s:ShowErrorScreen . (all f:FindClientById . !confirmed(f)) && !ok;
  clause alone: (some s:ShowErrorScreen . true) ==> (all e:Respond|ShowLoginScreen|ShowConsentScreen|CreateAuthSession|CreateOAuthToken . false) && (all s:ShowErrorScreen . all u:ShowErrorScreen . s == u);
  clause screens: all s:ShowLoginScreen|ShowConsentScreen . some f:FindClientById . f < s && confirmed(f);
  clause stored: all s:CreateAuthSession|CreateOAuthToken . some f:FindClientById . f < s && confirmed(f);
  cover errs: some p:Respond . p.kind == "Error";
  cover succeeds: some p:Respond . p.kind == "Success";
  cover shows: some s:ShowErrorScreen . true;
}
contract Complete for C12 {
  clause onlymine: all p:Respond . (some c:Continue . c < p && c.err == nil && p.uri == c.res.RedirectURI);
  clause noresponse: all a:Redirect|Write|WriteHeader . false;
  cover responds: some p:Respond . p.kind == "Success";
}
contract Cancel for C12 {
  clause onlymine: all p:Respond . (some c:Continue . c < p && c.err == nil && p.uri == c.res.RedirectURI);
  clause noresponse: all a:Redirect|Write|WriteHeader . false;
  cover responds: some p:Respond . true;
}

# ---- valid requests ------------------------------------------------------------
macro promptok = qprompt == "" || (forall i in 0:ntok(qprompt) . promptword(tok(qprompt, i))) &&
    !(intok(qprompt, "none") && (intok(qprompt, "login") || intok(qprompt, "consent") || intok(qprompt, "select_account")));
macro displayok = form("display") == "" || form("display") == "page" || form("display") == "popup" || form("display") == "wap" || form("display") == "touch";
macro qage = if form("max_age") == "" then 0 else atoi(form("max_age"));
macro ageok = form("max_age") == "" || atoiok(form("max_age")) && policy.MinMaxAge <= qage && qage <= policy.MaxMaxAge;
macro asksconsent = qprompt != "" && intok(qprompt, "consent");
macro asksnone = qprompt != "" && intok(qprompt, "none");
macro askslogin = qprompt != "" && intok(qprompt, "login");
macro offlineasked = intok(form("scope"), "offline_access");
macro offlinekept = offlineasked && !rtimplicit && asksconsent;
macro escope = if offlineasked && !offlinekept then removetok(form("scope"), "offline_access") else form("scope");
macro scopeok2 = (policy.AllowEmptyScope || escope != "") && (rtid ==> intok(escope, "openid"));
macro onlyoffline = offlinekept && !policy.AllowEmptyScope && removetok(removetok(form("scope"), "openid"), "offline_access") == "";
macro nonceok = (rtid && !rtcode ==> form("nonce") != "") && (form("nonce") == "" || len(form("nonce")) <= policy.MaxNonceLength);
macro verifierok = form("code_verifier") == "" || len(form("code_verifier")) <= policy.MaxCodeVerifierLength;
macro clientok(f) = confirmed(f) && f.res.CanUseFlow(ftype) && f.res.CanUseScope(ftype, escope);
macro paramsok = rtknown && promptok && displayok && ageok && scopeok2 && nonceok && verifierok;

# response modes
macro defmode = if rtcode then policy.DefaultAuthorizationCodeFlowResponseMode else policy.DefaultImplicitFlowResponseMode;
macro knownmode(m) = m == "query" || m == "fragment" || m == "form_post";
macro weak(m) = policy.RequireResponseModeSecurityLevelCheck && level(m) < level(defmode);
macro badmode = qmode != "" && (!knownmode(qmode) || weak(qmode));
macro effmode = if qmode == "" || badmode then defmode else qmode;
macro modeok = !badmode || policy.IgnoreInvalidResponseMode;

contract Authorize for C13 {
  clause screens: all s:ShowLoginScreen|ShowConsentScreen . paramsok && (some f:FindClientById . f < s && clientok(f));
  clause session: all s:ConfirmLoginSession|LoginUserIsMatchedToSubject|GetAuthTime|GetLoginUserId|RequestIsFromLogin . paramsok && (some f:FindClientById . f < s && clientok(f));
  clause stored: all s:CreateAuthorizationCode|CreateAuthSession|CreateOAuthToken . paramsok && (some f:FindClientById . f < s && clientok(f));
  clause success: all p:Respond . p.kind == "Success" ==> paramsok && (some f:FindClientById . f < p && clientok(f));
  clause offline: all s:ShowLoginScreen|ShowConsentScreen . intok(s.req.Scope, "offline_access") ==> !rtimplicit && intok(qprompt, "consent");
  # the request that is handed on
  clause names: all s:ShowLoginScreen|ShowConsentScreen . s.req.ClientId == qid && s.req.RedirectURI == quri && s.req.State == qstate && s.req.Nonce == form("nonce") && s.req.CodeVerifier == form("code_verifier");
  clause scope: all s:ShowLoginScreen|ShowConsentScreen . s.req.Scope == escope;
  clause display: all s:ShowLoginScreen|ShowConsentScreen . s.req.Display == (if form("display") == "" then "page" else form("display"));
  clause prompt: all s:ShowLoginScreen|ShowConsentScreen . s.req.Prompt == qprompt && s.req.MaxAge == qage;
  clause hints: all s:ShowLoginScreen|ShowConsentScreen . s.req.IdTokenHint == form("id_token_hint") && s.req.LoginHint == form("login_hint");
  clause locale: all s:ShowLoginScreen|ShowConsentScreen . some l:ChooseLocale . l < s && l.locales == form("ui_locales") && l.err == nil && s.req.UILocale == l.res;
  clause flow: all s:ShowLoginScreen|ShowConsentScreen . s.req.Flow.Type == ftype && (s.req.Flow.RequireAccessToken <==> rtaccess) && (s.req.Flow.RequireIdToken <==> rtid);
  clause mode: all s:ShowLoginScreen|ShowConsentScreen . s.req.ResponseMode == effmode;
  clause client: all s:ShowConsentScreen . some f:FindClientById . f < s && theclient(f) && s.client == f.res;
  # a valid request is not refused, an invalid one is
  clause accepted: paramsok && modeok && !onlyoffline && !asksnone && (all f:FindClientById . clientok(f)) && qid != "" && quri != "" ==>
     (all p:Respond . p.kind == "Error" ==> p.error == "server_error");
  clause proceeds: paramsok && modeok && !onlyoffline && !asksnone && (all f:FindClientById . clientok(f)) && qid != "" && quri != "" &&
     (all e:ChooseLocale|ConfirmLoginSession|RequestIsFromLogin|GetAuthTime|GetLoginUserId|ShowLoginScreen|ShowConsentScreen|CreateAuthorizationCode . e.err == nil) &&
     (all e:FindAuthInfoByUserIdAndClientId . e.err == nil && e.res != nil || e.err != nil && e.err.Type() == 2) && (all e:CreateAuthSession . e.err == nil) && (all e:CreateOAuthToken . e.err == nil && e.res != nil) ==>
     (some s:ShowLoginScreen|ShowConsentScreen . true) || (some p:Respond . p.kind == "Success" || p.error == "server_error");
  clause refused: (some f:FindClientById . first(f) && (!paramsok || !modeok || !clientok(f))) ==> (some p:Respond . p.kind == "Error");
  clause flowcode: (some f:FindClientById . first(f) && !f.res.CanUseFlow(ftype)) && rtknown && modeok ==> (some p:Respond . p.error == "unauthorized_client");
  cover consent: some s:ShowConsentScreen . offlinekept;
  cover login: some s:ShowLoginScreen . rthybrid && rtid;
  cover refuses: some p:Respond . p.error == "invalid_scope";
}

contract Authorize for C14 {
  clause secure: all p:Respond . p.kind == "Success" && policy.RequireResponseModeSecurityLevelCheck ==> level(p.mode) >= level(defmode);
  clause securereq: all s:ShowLoginScreen|ShowConsentScreen . policy.RequireResponseModeSecurityLevelCheck ==> level(s.req.ResponseMode) >= level(defmode);
  clause known: all p:Respond . p.kind == "Success" ==> knownmode(p.mode) || p.mode == defmode;
  clause knownreq: all s:ShowLoginScreen|ShowConsentScreen . knownmode(s.req.ResponseMode) || s.req.ResponseMode == defmode;
  clause exact: all p:Respond . p.kind == "Success" ==> p.mode == effmode;
  clause exactreq: all s:ShowLoginScreen|ShowConsentScreen . s.req.ResponseMode == effmode;
  clause errors: all p:Respond . rtknown ==> p.mode == effmode;
  clause refused: badmode && !policy.IgnoreInvalidResponseMode ==> (all e:ShowLoginScreen|ShowConsentScreen|CreateAuthSession|CreateOAuthToken . false) && (all p:Respond . p.kind == "Error");
  clause answered: badmode && !policy.IgnoreInvalidResponseMode && rtknown && (some f:FindClientById . first(f)) ==> (some p:Respond . p.error == "invalid_request" && p.mode == defmode);
  cover weakmode: badmode && knownmode(qmode) && (some s:ShowConsentScreen . true);
  cover honoured: qmode == "form_post" && (some p:Respond . p.kind == "Success");
}
contract Complete for C14 {
  clause mode: all p:Respond . some c:Continue . c < p && p.mode == c.res.ResponseMode;
}
contract Cancel for C14 {
  clause mode: all p:Respond . some c:Continue . c < p && p.mode == c.res.ResponseMode;
}

# ---- prompt --------------------------------------------------------------------
macro fresh(i) = i.clientId == qid && i.err == nil && i.res != nil && i.res.IsActive() && sorttok(i.res.GetScope()) == sorttok(escope) &&
   i.res.GetAuthorizedAt() + policy.ConsentOmissionPeriod > now();
macro freshfor(e) = some i:FindAuthInfoByUserIdAndClientId . i < e && fresh(i) && (some g:GetLoginUserId . g < i && g.err == nil && g.res == i.uid);
macro loggedin(e) = some l:ConfirmLoginSession . l < e && l.err == nil && l.res;
macro fromlogin(e) = some l:RequestIsFromLogin . l < e && l.err == nil && l.res;
macro hint = form("id_token_hint");
macro hintkey(f) = if issigner(f.res.GetIdTokenKey()) then pubkey(f.res.GetIdTokenKey()) else f.res.GetIdTokenKey();
macro hintok(f) = hint != "" && jwtparsed(hint) && jwtsigok(hint, hintkey(f)) && jwttimeok(hint) && jwtisnum(hint, "exp") && jwtisstr(hint, "sub");
macro evidence(f, e) = f.res.GetNonePromptPolicy() == 1 && loggedin(e) ||
   f.res.GetNonePromptPolicy() == 2 && form("login_hint") != "" && loggedin(e) && (some m:LoginUserIsMatchedToSubject . m < e && m.sub == form("login_hint") && m.err == nil && m.res) ||
   f.res.GetNonePromptPolicy() == 3 && hintok(f) && (some m:LoginUserIsMatchedToSubject . m < e && m.sub == jwtstr(hint, "sub") && m.err == nil && m.res);
macro completes = (some p:Respond . p.kind == "Success");

contract Authorize for C15 {
  clause silent: asksnone && promptok ==> (all s:ShowLoginScreen|ShowConsentScreen . false);
  clause evidence: all p:Respond . p.kind == "Success" && asksnone ==> (some f:FindClientById . f < p && confirmed(f) && evidence(f, p));
  clause evidencestore: all s:CreateAuthSession|CreateOAuthToken|CreateAuthorizationCode . asksnone ==> (some f:FindClientById . f < s && confirmed(f) && evidence(f, s));
  clause omission: all p:Respond . p.kind == "Success" && !asksnone ==> !asksconsent && loggedin(p) && (some f:FindClientById . f < p && confirmed(f) && f.res.GetNoConsentPromptPolicy() == 1);
  clause omissionstore: all s:CreateAuthSession|CreateOAuthToken|CreateAuthorizationCode . !asksnone ==> !asksconsent && loggedin(s) && (some f:FindClientById . f < s && confirmed(f) && f.res.GetNoConsentPromptPolicy() == 1);
  clause authorized: all p:Respond . p.kind == "Success" ==> freshfor(p);
  clause authorizedstore: all s:CreateAuthSession|CreateOAuthToken . some i:FindAuthInfoByUserIdAndClientId . i < s && fresh(i) && s.info == i.res && (some g:GetLoginUserId . g < i && g.err == nil && g.res == i.uid);
  clause login: all s:ShowConsentScreen . askslogin ==> fromlogin(s);
  clause loginstore: all s:CreateAuthSession|CreateOAuthToken|CreateAuthorizationCode . askslogin ==> fromlogin(s);
  clause loginshown: all l:RequestIsFromLogin . l.err == nil && !l.res ==> (some s:ShowLoginScreen . true) && !completes;
  clause sessionless: all l:ConfirmLoginSession . l.err == nil && !l.res && !asksnone ==> (some s:ShowLoginScreen . true) && !completes;
  clause consentlogin: all s:ShowConsentScreen . loggedin(s);
  clause loginneeded: all s:ShowLoginScreen . (some l:ConfirmLoginSession . l < s && l.err == nil && !l.res) || askslogin && (some l:RequestIsFromLogin . l < s && l.err == nil && !l.res) ||
     qage > 0 && (some t:GetAuthTime . t < s && t.err == nil && now() - t.res > qage);
  # refusals of prompt=none
  clause forbidden: (some f:FindClientById . first(f) && f.res.GetNonePromptPolicy() == 0) && asksnone ==> (all p:Respond . p.kind == "Error") && (all e:CreateAuthSession|CreateOAuthToken . false);
  clause consentrequired: all i:FindAuthInfoByUserIdAndClientId . asksnone && i.err == nil && i.res != nil && !fresh(i) ==> (some p:Respond . p.error == "consent_required");
  clause loginrequired: all l:ConfirmLoginSession . asksnone && l.err == nil && !l.res ==> (some p:Respond . p.error == "login_required");
  clause granted: all p:Respond . asksnone && p.error == "consent_required" ==> (some i:FindAuthInfoByUserIdAndClientId . i < p && !fresh(i));
  clause consentshown: all i:FindAuthInfoByUserIdAndClientId . !asksnone && (i.err != nil && i.err.Type() == 2 || i.err == nil && i.res != nil && !fresh(i)) ==> (some s:ShowConsentScreen . true);
  clause omitted: all s:ShowConsentScreen . asksconsent || (some f:FindClientById . f < s && confirmed(f) && f.res.GetNoConsentPromptPolicy() != 1) || (some i:FindAuthInfoByUserIdAndClientId . i < s && !fresh(i));
  cover session: some p:Respond . p.kind == "Success" && asksnone && (some f:FindClientById . f.res.GetNonePromptPolicy() == 1);
  cover loginhint: some p:Respond . p.kind == "Success" && asksnone && (some f:FindClientById . f.res.GetNonePromptPolicy() == 2);
  cover idtokenhint: some p:Respond . p.kind == "Success" && asksnone && (some f:FindClientById . f.res.GetNonePromptPolicy() == 3);
  cover omits: some p:Respond . p.kind == "Success" && !asksnone;
}

contract Authorize for C16 {
  clause fresh: all p:Respond . p.kind == "Success" && qage > 0 ==> (some t:GetAuthTime . t < p && t.err == nil && now() - t.res <= qage);
  clause consent: all s:ShowConsentScreen . qage > 0 ==> (some t:GetAuthTime . t < s && t.err == nil && now() - t.res <= qage);
  clause stored: all s:CreateAuthSession|CreateOAuthToken|CreateAuthorizationCode . qage > 0 ==> (some t:GetAuthTime . t < s && t.err == nil && now() - t.res <= qage);
  clause stale: all t:GetAuthTime . t.err == nil && qage > 0 && now() - t.res > qage && (all u:GetAuthTime . !(u < t)) ==>
     (if asksnone then (some p:Respond . p.error == "login_required") else (some s:ShowLoginScreen . true));
  clause notstale: all p:Respond . asksnone && p.error == "login_required" ==> (some l:ConfirmLoginSession . l < p && l.err == nil && !l.res) || qage > 0 && (some t:GetAuthTime . t < p && t.err == nil && now() - t.res > qage);
  cover sends: qage > 0 && (some s:ShowLoginScreen . some t:GetAuthTime . true);
  cover completes: qage > 0 && (some p:Respond . p.kind == "Success");
  cover silent: qage > 0 && (some p:Respond . asksnone && p.error == "login_required" && (some t:GetAuthTime . true));
}

# the flow of a request is the one its response_type selects
contract Authorize for C20 {
  clause known: all s:ShowLoginScreen|ShowConsentScreen|CreateAuthSession|CreateOAuthToken|ConfirmLoginSession . rtknown;
  clause flow: all s:ShowLoginScreen|ShowConsentScreen . s.req.Flow.Type == ftype && (s.req.Flow.RequireAccessToken <==> rtaccess) && (s.req.Flow.RequireIdToken <==> rtid);
  clause carries: all p:Respond . p.kind == "Success" ==> rtknown && carries(p, ftype, rtaccess, rtid, qstate, escope);
  clause refused: (some f:FindClientById . first(f)) && !rtknown ==> (some p:Respond . p.kind == "Error");
  cover consent: some s:ShowConsentScreen . rthybrid && rtid;
}
# only a valid prompt gets anywhere, and it is handed on as it is
contract Authorize for C22 {
  clause valid: all s:ShowLoginScreen|ShowConsentScreen|CreateAuthSession|CreateOAuthToken|ConfirmLoginSession . promptok;
  clause kept: all s:ShowLoginScreen|ShowConsentScreen . s.req.Prompt == qprompt;
  cover consent: some s:ShowConsentScreen . asksconsent && askslogin;
}
