# ---- authorization responses ---------------------------------------------------
# kinds of response: ty is the flow (0 code, 1 implicit, 2 hybrid)
macro carries(p, ty, access, idtoken, state, sc) = forall k:string . has(p.params, k) <==>
   k == "code" && ty != 1 || k == "state" && state != "" || k == "scope" && ty != 0 && sc != "" ||
   (k == "access_token" || k == "token_type" || k == "expires_in") && ty != 0 && access || k == "id_token" && ty != 0 && idtoken;
macro stored(s, p, uri, nonce, verifier) = s < p && s.err == nil && s.session.Code == get(p.params, "code") && s.session.RedirectURI == uri && s.session.Nonce == nonce &&
   s.session.CodeVerifier == verifier && s.session.ExpiresIn == policy.AuthSessionExpiresIn && (some g:GetAuthTime . g < s && g.err == nil && g.res == s.session.AuthTime) &&
   (some k:CreateAuthorizationCode . k < s && k.err == nil && k.res == s.session.Code);
macro minted(t, p) = t < p && t.err == nil && t.res != nil && !t.onTokenEndpoint && get(p.params, "access_token") == t.res.GetAccessToken() &&
   lower(get(p.params, "token_type")) == "bearer" && get(p.params, "expires_in") == itoa(t.res.GetAccessTokenExpiresIn());
macro theidt(p) = get(p.params, "id_token");
macro theat(p) = get(p.params, "access_token");
# the ID token of response p for client c and authorization i
macro idtsigned(p, c) = signedby(theidt(p), c.GetIdTokenAlg(), c.GetIdTokenKey(), c.GetIdTokenKeyId());
macro idtfacts(p, i) = facts(theidt(p), sdi.Issuer(), i.GetClientId(), i.GetSubject(), now() + policy.IdTokenExpiresIn);
macro idttimes(p) = some g:GetAuthTime . g < p && g.err == nil && times(theidt(p), g.res, now());
macro idtclaims(p, ty, access, nonce) = some g:GetAuthTime . g < p && g.err == nil && claims(theidt(p), g.res, now(), nonce, access && theat(p) != "", ty == 2);
macro idtnonce(p, nonce) = nonce != "" ==> jwtstr(theidt(p), "nonce") == nonce;
macro idtaccess(p, alg) = theat(p) != "" ==> hashclaim(theidt(p), "at_hash", alg, theat(p));
macro idtcode(p, alg) = hashclaim(theidt(p), "c_hash", alg, get(p.params, "code"));
macro failure(p) = p.kind == "Error" && p.error == "server_error";

contract Complete for C17 {
  clause one: all p:Respond . all q:Respond . p == q;
  clause carries: all p:Respond . all c:Continue . p.kind == "Success" && 0 <= c.res.Flow.Type && c.res.Flow.Type <= 2 ==>
     carries(p, c.res.Flow.Type, c.res.Flow.RequireAccessToken, c.res.Flow.RequireIdToken, c.res.State, c.res.Scope);
  clause state: all p:Respond . all c:Continue . p.kind == "Success" && c.res.State != "" ==> get(p.params, "state") == c.res.State;
  clause scope: all p:Respond . all c:Continue . p.kind == "Success" && c.res.Flow.Type != 0 && c.res.Scope != "" ==> get(p.params, "scope") == c.res.Scope;
  clause code: all p:Respond . all c:Continue . p.kind == "Success" && c.res.Flow.Type != 1 ==>
     (some s:CreateAuthSession . stored(s, p, c.res.RedirectURI, c.res.Nonce, c.res.CodeVerifier));
  clause onecode: all s:CreateAuthSession . all u:CreateAuthSession . s == u;
  clause sessioninfo: all s:CreateAuthSession|CreateOAuthToken . some i:CreateOrUpdateAuthInfo . i < s && i.err == nil && i.res != nil && s.info == i.res;
  clause approval: all i:CreateOrUpdateAuthInfo . all c:Continue . i.clientId == c.res.ClientId && i.scope == c.res.Scope && (some g:GetLoginUserId . g < i && g.err == nil && g.res == i.uid);
  clause token: all p:Respond . all c:Continue . p.kind == "Success" && c.res.Flow.Type != 0 && c.res.Flow.RequireAccessToken ==> (some t:CreateOAuthToken . minted(t, p));
  clause notoken: all t:CreateOAuthToken . all c:Continue . c.res.Flow.Type != 0 && c.res.Flow.RequireAccessToken;
  clause nocode: all s:CreateAuthSession . all c:Continue . c.res.Flow.Type != 1;
  clause idtsigned: all p:Respond . all c:Continue . p.kind == "Success" && c.res.Flow.Type != 0 && c.res.Flow.RequireIdToken ==>
     (some f:FindClientById . f < p && f.clientId == c.res.ClientId && f.err == nil && f.res != nil && idtsigned(p, f.res) && idtaccess(p, f.res.GetIdTokenAlg()) && (c.res.Flow.Type == 2 ==> idtcode(p, f.res.GetIdTokenAlg())));
  clause idtfacts: all p:Respond . all c:Continue . p.kind == "Success" && c.res.Flow.Type != 0 && c.res.Flow.RequireIdToken ==> (some i:CreateOrUpdateAuthInfo . i < p && idtfacts(p, i.res));
  clause idttimes: all p:Respond . all c:Continue . p.kind == "Success" && c.res.Flow.Type != 0 && c.res.Flow.RequireIdToken ==> idttimes(p) && idtnonce(p, c.res.Nonce);
  clause idtclaims: all p:Respond . all c:Continue . p.kind == "Success" && c.res.Flow.Type != 0 && c.res.Flow.RequireIdToken ==>
     idtclaims(p, c.res.Flow.Type, c.res.Flow.RequireAccessToken, c.res.Nonce);
  clause success: all p:Respond . p.kind == "Success" ==> (all e:CreateAuthorizationCode|CreateAuthSession|GetAuthTime|GetLoginUserId . e.err == nil) && (all e:CreateOAuthToken|CreateOrUpdateAuthInfo|FindClientById . e.err == nil && e.res != nil);
  clause failed: all e:CreateAuthorizationCode|CreateAuthSession|GetAuthTime|GetLoginUserId . e.err != nil ==> (some p:Respond . failure(p));
  clause refused: all e:CreateOAuthToken|CreateOrUpdateAuthInfo|FindClientById . e.err != nil || e.res == nil ==> (some p:Respond . failure(p));
  clause errors: all p:Respond . all c:Continue . p.kind == "Error" ==> p.error != "" && p.state == c.res.State;
  clause nothing: all c:Continue . c.err != nil ==> (all e:Respond|CreateAuthSession|CreateOAuthToken|CreateOrUpdateAuthInfo . false) && !ok;
  clause returned: ok <==> (some p:Respond . p.kind == "Success");
  clause answered: all c:Continue . c.err == nil && 0 <= c.res.Flow.Type && c.res.Flow.Type <= 2 ==> (some p:Respond . true);
  clause completed: all c:Continue . c.err == nil && 0 <= c.res.Flow.Type && c.res.Flow.Type <= 2 && (c.res.Flow.Type == 0 || !c.res.Flow.RequireIdToken) &&
     (all e:CreateAuthorizationCode|CreateAuthSession|GetAuthTime|GetLoginUserId . e.err == nil) && (all e:CreateOAuthToken|CreateOrUpdateAuthInfo|FindClientById . e.err == nil && e.res != nil) ==> (some p:Respond . p.kind == "Success");
  clause completedid: all f:FindClientById . (all e:CreateAuthorizationCode|CreateAuthSession|GetAuthTime|GetLoginUserId . e.err == nil) && (all e:CreateOAuthToken|CreateOrUpdateAuthInfo|FindClientById . e.err == nil && e.res != nil) &&
     hashable(f.res.GetIdTokenAlg()) && jwtalgknown(f.res.GetIdTokenAlg()) && jwtsignok(f.res.GetIdTokenAlg(), f.res.GetIdTokenKey()) ==> (some p:Respond . p.kind == "Success");
  cover plain: some p:Respond . p.kind == "Success" && !has(p.params, "access_token") && has(p.params, "code");
  cover onlyfront: some p:Respond . p.kind == "Success" && has(p.params, "access_token") && !has(p.params, "code") && has(p.params, "id_token");
  cover both: some p:Respond . p.kind == "Success" && has(p.params, "access_token") && has(p.params, "code") && has(p.params, "id_token");
  cover breaks: some p:Respond . failure(p);
}

contract Authorize for C17 {
  clause one: all p:Respond . all q:Respond . p == q;
  clause carries: all p:Respond . p.kind == "Success" ==> carries(p, ftype, rtaccess, rtid, qstate, escope);
  clause state: all p:Respond . p.kind == "Success" && qstate != "" ==> get(p.params, "state") == qstate;
  clause scope: all p:Respond . p.kind == "Success" && !rtcode && escope != "" ==> get(p.params, "scope") == escope;
  clause code: all p:Respond . p.kind == "Success" && !rtimplicit ==> (some s:CreateAuthSession . stored(s, p, quri, form("nonce"), form("code_verifier")));
  clause onecode: all s:CreateAuthSession . all u:CreateAuthSession . s == u;
  clause sessioninfo: all s:CreateAuthSession|CreateOAuthToken . some i:FindAuthInfoByUserIdAndClientId . i < s && i.clientId == qid && i.err == nil && i.res != nil && s.info == i.res;
  clause token: all p:Respond . p.kind == "Success" && rtaccess ==> (some t:CreateOAuthToken . minted(t, p));
  clause notoken: all t:CreateOAuthToken . rtaccess;
  clause nocode: all s:CreateAuthSession . !rtimplicit;
  clause idtsigned: all p:Respond . p.kind == "Success" && !rtcode && rtid ==>
     (some f:FindClientById . f < p && theclient(f) && idtsigned(p, f.res) && idtaccess(p, f.res.GetIdTokenAlg()) && (rthybrid ==> idtcode(p, f.res.GetIdTokenAlg())));
  clause idtfacts: all p:Respond . p.kind == "Success" && !rtcode && rtid ==> (some i:FindAuthInfoByUserIdAndClientId . i < p && idtfacts(p, i.res));
  clause idttimes: all p:Respond . p.kind == "Success" && !rtcode && rtid ==> idttimes(p) && idtnonce(p, form("nonce"));
  clause idtclaims: all p:Respond . p.kind == "Success" && !rtcode && rtid ==> idtclaims(p, ftype, rtaccess, form("nonce"));
  clause success: all p:Respond . p.kind == "Success" ==> (all e:CreateAuthorizationCode|CreateAuthSession|GetAuthTime|GetLoginUserId . e.err == nil) && (all e:CreateOAuthToken|FindAuthInfoByUserIdAndClientId|FindClientById . e.err == nil && e.res != nil);
  clause failed: all e:CreateAuthorizationCode|CreateAuthSession|GetAuthTime|GetLoginUserId . e.err != nil ==> (some p:Respond . failure(p));
  clause refused: all e:CreateOAuthToken . e.err != nil || e.res == nil ==> (some p:Respond . failure(p));
  clause errors: all p:Respond . p.kind == "Error" ==> p.error != "" && p.state == qstate;
  clause returned: ok <==> (some p:Respond . p.kind == "Success") || (some s:ShowConsentScreen . s.err == nil);
  # every request has one outcome
  clause answered: some e:Respond|ShowErrorScreen|ShowLoginScreen|ShowConsentScreen . true;
  clause outcome: all s:ShowLoginScreen|ShowConsentScreen . s.err == nil ==> (all p:Respond . false) && (all u:ShowLoginScreen|ShowConsentScreen . s == u);
  cover plain: some p:Respond . p.kind == "Success" && !has(p.params, "access_token") && has(p.params, "code");
  cover both: some p:Respond . p.kind == "Success" && has(p.params, "access_token") && has(p.params, "code") && has(p.params, "id_token");
}

contract Cancel for C17 {
  clause refused: all c:Continue . c.err == nil ==> (some p:Respond . p.kind == "Error" && p.error == "access_denied" && p.state == c.res.State);
  clause one: all p:Respond . all q:Respond . p == q;
  clause nothing: all c:Continue . c.err != nil ==> (all e:Respond . false) && !ok;
  clause stores: all e:CreateAuthSession|CreateOAuthToken|CreateOrUpdateAuthInfo . false;
  cover denies: some p:Respond . true;
}
