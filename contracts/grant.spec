# ---- grant handlers -------------------------------------------------------
# The roots GrantCode .. GrantJWT run one handler for an authenticated client c
# at time `now`; their results are (typ, res, err).

macro granted = err == nil;
macro formcode = form("code");

contract GrantCode for C03 {
  # exactly one of a response and an error comes back
  clause outcome: (err == nil) <==> (res != nil);
  # a granted code names a session stored under exactly that code
  clause session: granted ==> (some f:FindAuthSessionByCode . f.err == nil && f.res != nil && f.code == formcode && formcode != "");
  # that session was issued for the same redirect_uri
  clause redirect: granted ==> (some f:FindAuthSessionByCode . f.res.GetRedirectURI() == form("redirect_uri") && form("redirect_uri") != "");
  # the session has not expired
  clause fresh: granted ==> (some f:FindAuthSessionByCode . f.res.GetCreatedAt() + f.res.GetExpiresIn() >= now());
  # the authorization is active and belongs to the authenticated client
  clause owner: granted ==> (some f:FindAuthSessionByCode . some i:FindActiveAuthInfoById .
      i.id == f.res.GetAuthId() && i.err == nil && i.res != nil && i.res.GetClientId() == c.GetId());
  # proof key: the challenge presented now matches the verifier stored then
  clause pkce: granted ==> (some f:FindAuthSessionByCode . f.res.GetCodeVerifier() != "" ==>
      form("code_challenge") != "" &&
      (form("code_challenge_method") == "plain" && form("code_challenge") == f.res.GetCodeVerifier()
       || form("code_challenge_method") == "S256" && form("code_challenge") == split0(b64("url", sha256(f.res.GetCodeVerifier())), "=", 0)));
  # tokens are created only after all of these checks, for that authorization
  clause created: all t:CreateOAuthToken . t.onTokenEndpoint && (some f:FindAuthSessionByCode . some i:FindActiveAuthInfoById .
      f < t && i < t && f.err == nil && f.res != nil && f.code == formcode && i.err == nil && i.id == f.res.GetAuthId() && t.info == i.res &&
      i.res.GetClientId() == c.GetId() && f.res.GetRedirectURI() == form("redirect_uri") &&
      f.res.GetCreatedAt() + f.res.GetExpiresIn() >= now() &&
      (f.res.GetCodeVerifier() == "" || form("code_challenge") != ""));
  clause createdpkce: all t:CreateOAuthToken . some f:FindAuthSessionByCode . f.res.GetCodeVerifier() == "" ||
       form("code_challenge_method") == "plain" && form("code_challenge") == f.res.GetCodeVerifier()
       || form("code_challenge_method") == "S256" && form("code_challenge") == split0(b64("url", sha256(f.res.GetCodeVerifier())), "=", 0);
  # a refusal always has a reason
  clause justified: err != nil ==> form("redirect_uri") == "" || formcode == "" ||
      (some e:FindAuthSessionByCode|FindActiveAuthInfoById|CreateOAuthToken . e.err != nil || e.res == nil) ||
      (some d:DisableSession . d.err != nil) ||
      (some f:FindAuthSessionByCode . f.res.GetRedirectURI() != form("redirect_uri") || f.res.GetCreatedAt() + f.res.GetExpiresIn() < now() ||
          f.res.GetCodeVerifier() != "" && !(
             form("code_challenge") != "" &&
      (form("code_challenge_method") == "plain" && form("code_challenge") == f.res.GetCodeVerifier()
       || form("code_challenge_method") == "S256" && form("code_challenge") == split0(b64("url", sha256(f.res.GetCodeVerifier())), "=", 0)))) ||
      (some i:FindActiveAuthInfoById . i.res.GetClientId() != c.GetId()) ||
      (some i:FindActiveAuthInfoById . intok(i.res.GetScope(), "openid"));
  cover works: granted;
  cover workspkce: granted && (some f:FindAuthSessionByCode . f.res.GetCodeVerifier() != "");
  cover refuses: err != nil;
}

contract GrantCode for C04 {
  # no token leaves without the code having been disabled successfully
  clause disabled: granted ==> (some d:DisableSession . d.err == nil && (some f:FindAuthSessionByCode . d.sess == f.res && f.code == formcode && f < d));
  # a code whose disabling failed is refused
  clause failclosed: all d:DisableSession . d.err != nil ==> err != nil && res == nil;
  # every session is looked up afresh, exactly once, and only that one is disabled
  clause once: all a:FindAuthSessionByCode . all b:FindAuthSessionByCode . a == b;
  clause oncecreate: all a:CreateOAuthToken . all b:CreateOAuthToken . a == b;
  clause onlythat: all d:DisableSession . some f:FindAuthSessionByCode . f < d && d.sess == f.res;
  clause lookedup: all t:CreateOAuthToken . some f:FindAuthSessionByCode . f < t && f.code == formcode && f.err == nil && f.res != nil;
  cover works: granted;
}

# ---- refresh tokens
macro liveRefresh(f) = f.token == form("refresh_token") && f.token != "" && f.err == nil && f.res != nil &&
    f.res.GetCreatedAt() + f.res.GetRefreshTokenExpiresIn() >= now();
macro refreshOwner(f, i) = i.id == f.res.GetAuthId() && i.err == nil && i.res != nil && i.res.GetClientId() == c.GetId() && intok(i.res.GetScope(), "offline_access");

contract GrantRefresh for C05 {
  clause outcome: (err == nil) <==> (res != nil);
  # the presented token was found and has not expired
  clause live: granted ==> (some f:FindOAuthTokenByRefreshToken . liveRefresh(f));
  # its authorization is active, belongs to this client and allows offline access
  clause owner: granted ==> (some f:FindOAuthTokenByRefreshToken . some i:FindActiveAuthInfoById . liveRefresh(f) && refreshOwner(f, i));
  # the new token comes from that authorization and replaces that token
  clause refreshed: all t:RefreshAccessToken . some f:FindOAuthTokenByRefreshToken . some i:FindActiveAuthInfoById .
      f < t && i < t && liveRefresh(f) && refreshOwner(f, i) && t.info == i.res && t.token == f.res;
  clause issuedhere: granted ==> (some t:RefreshAccessToken . t.err == nil && t.res != nil);
  clause norefreshcreate: all t:CreateOAuthToken . false;
  clause carried: granted ==> (some t:RefreshAccessToken . t.err == nil && res.AccessToken == t.res.GetAccessToken() && res.RefreshToken == t.res.GetRefreshToken() && res.ExpiresIn == t.res.GetAccessTokenExpiresIn());
  clause scope: granted ==> (some i:FindActiveAuthInfoById . res.Scope == i.res.GetScope());
  clause justified: err != nil ==> form("refresh_token") == "" ||
      (some e:FindOAuthTokenByRefreshToken|FindActiveAuthInfoById|RefreshAccessToken . e.err != nil || e.res == nil) ||
      (some f:FindOAuthTokenByRefreshToken . f.res.GetCreatedAt() + f.res.GetRefreshTokenExpiresIn() < now()) ||
      (some i:FindActiveAuthInfoById . i.res.GetClientId() != c.GetId() || !intok(i.res.GetScope(), "offline_access"));
  cover works: granted;
  cover refuses: err != nil;
}

# ---- direct grants
macro scopeok = form("scope") == "" || c.CanUseScope(3, form("scope"));

contract GrantPassword for C06 {
  clause outcome: (err == nil) <==> (res != nil);
  # the end user is the one the store names for exactly these credentials
  clause user: granted ==> form("username") != "" && form("password") != "" &&
     (some u:FindUserId . u.username == form("username") && u.password == form("password") && u.err == nil &&
        (some i:CreateOrUpdateAuthInfo . i.uid == u.res));
  clause allowed: granted ==> scopeok;
  # no authorization is recorded before the user is known and the scope allowed
  clause guarded: all i:CreateOrUpdateAuthInfo . i.clientId == c.GetId() && i.scope == form("scope") && scopeok &&
     (some u:FindUserId . u < i && u.username == form("username") && u.password == form("password") && u.err == nil && i.uid == u.res);
  # tokens are for that authorization only
  clause created: all t:CreateOAuthToken . t.onTokenEndpoint && (some i:CreateOrUpdateAuthInfo . i < t && i.err == nil && i.res != nil && t.info == i.res);
  clause issuedhere: granted ==> (some t:CreateOAuthToken . t.err == nil && t.res != nil);
  clause oncecreate: all a:CreateOAuthToken . all b:CreateOAuthToken . a == b;
  clause justified: err != nil ==> form("username") == "" || form("password") == "" || !scopeok ||
      (some u:FindUserId . u.err != nil) || (some e:CreateOrUpdateAuthInfo|CreateOAuthToken . e.err != nil || e.res == nil);
  cover works: granted;
  cover refuses: err != nil;
}

contract GrantClient for C06 {
  clause outcome: (err == nil) <==> (res != nil);
  clause owner: granted ==> c.GetOwnerUserId() >= 0;
  clause allowed: granted ==> scopeok;
  clause guarded: all i:CreateOrUpdateAuthInfo . i.uid == c.GetOwnerUserId() && i.uid >= 0 && i.clientId == c.GetId() && i.scope == form("scope") && scopeok;
  clause created: all t:CreateOAuthToken . t.onTokenEndpoint && (some i:CreateOrUpdateAuthInfo . i < t && i.err == nil && i.res != nil && t.info == i.res);
  clause issuedhere: granted ==> (some t:CreateOAuthToken . t.err == nil && t.res != nil);
  clause oncecreate: all a:CreateOAuthToken . all b:CreateOAuthToken . a == b;
  clause nouser: all u:FindUserId|FindUserIdBySubject . false;
  clause justified: err != nil ==> c.GetOwnerUserId() < 0 || !scopeok || (some e:CreateOrUpdateAuthInfo|CreateOAuthToken . e.err != nil || e.res == nil);
  cover works: granted;
  cover refuses: err != nil;
}

contract GrantJWT for C06 {
  clause outcome: (err == nil) <==> (res != nil);
  # the end user is the one the store names for the assertion's subject
  clause user: granted ==> jwtisstr(form("assertion"), "sub") && (some u:FindUserIdBySubject . u.sub == jwtstr(form("assertion"), "sub") && u.err == nil &&
        (some i:CreateOrUpdateAuthInfo . i.uid == u.res));
  clause allowed: granted ==> scopeok;
  clause guarded: all i:CreateOrUpdateAuthInfo . i.clientId == c.GetId() && i.scope == form("scope") && scopeok &&
     (some u:FindUserIdBySubject . u < i && u.sub == jwtstr(form("assertion"), "sub") && u.err == nil && i.uid == u.res);
  clause created: all t:CreateOAuthToken . t.onTokenEndpoint && (some i:CreateOrUpdateAuthInfo . i < t && i.err == nil && i.res != nil && t.info == i.res);
  clause issuedhere: granted ==> (some t:CreateOAuthToken . t.err == nil && t.res != nil);
  clause oncecreate: all a:CreateOAuthToken . all b:CreateOAuthToken . a == b;
  cover works: granted;
  cover refuses: err != nil;
}

# ---- assertions (RFC 7523 section 3)
macro asr = form("assertion");
macro asrkey = c.GetAssertionKey(jwthdrstr(asr, "alg"), jwthdrstr(asr, "kid"));
macro asrsigned = jwtparsed(asr) && asrkey != nil && jwtsigok(asr, asrkey);
macro asrclaims = jwtisnum(asr, "exp") && jwttimeok(asr) && jwtisstr(asr, "aud") && jwtstr(asr, "aud") == sdi.Issuer() && sdi.Issuer() != "";
macro recorded = (some a:RecordAssertionClaims . a.clientId == c.GetId() && a.jti == jwtstr(asr, "jti") && a.expiredAt == jwtnum(asr, "exp") &&
     a.issuedAt == (if jwtisnum(asr, "iat") then jwtnum(asr, "iat") else 0 - 1) && a.err == nil);

contract GrantJWT for C09 {
  clause present: granted ==> asr != "";
  # signed with a key registered by this very client for that algorithm and key id
  clause signature: granted ==> asrsigned;
  # unexpired, and addressed to this server
  clause lifetime: granted ==> jwtisnum(asr, "exp") && jwttimeok(asr);
  clause audience: granted ==> jwtisstr(asr, "aud") && jwtstr(asr, "aud") == sdi.Issuer() && sdi.Issuer() != "";
  # offered to the store for replay detection, which did not object
  clause replay: granted ==> recorded;
  # nothing is looked up or created for an assertion that fails these checks
  clause guarded: all u:FindUserIdBySubject|CreateOrUpdateAuthInfo|CreateOAuthToken . asrsigned && asrclaims && (some a:RecordAssertionClaims . a < u && a.err == nil);
  clause recordsigned: all a:RecordAssertionClaims . asrsigned && jwttimeok(asr);
  # tokens go only to the user the store returned for the assertion's subject
  clause subject: all u:FindUserIdBySubject . jwtisstr(asr, "sub") && u.sub == jwtstr(asr, "sub");
  clause foruser: all i:CreateOrUpdateAuthInfo . i.clientId == c.GetId() && (some u:FindUserIdBySubject . u < i && u.err == nil && i.uid == u.res);
  clause tokenfor: all t:CreateOAuthToken . some i:CreateOrUpdateAuthInfo . i < t && i.err == nil && t.info == i.res;
  clause justified: err != nil ==> asr == "" || !asrsigned || !asrclaims || !jwtisstr(asr, "sub") || !scopeok ||
      (some e:RecordAssertionClaims|FindUserIdBySubject|CreateOrUpdateAuthInfo|CreateOAuthToken . e.err != nil) ||
      (some e:CreateOrUpdateAuthInfo|CreateOAuthToken . e.res == nil);
  cover works: granted;
  cover refuses: err != nil;
}

# ---- what the client receives
macro fidelity(t) = res.TokenType == "Bearer" && res.AccessToken == t.res.GetAccessToken() && res.ExpiresIn == t.res.GetAccessTokenExpiresIn() &&
     res.RefreshToken == t.res.GetRefreshToken();
contract GrantCode for C07 {
  clause token: granted ==> (some t:CreateOAuthToken . t.err == nil && fidelity(t));
  clause scope: granted ==> (some i:FindActiveAuthInfoById . res.Scope == i.res.GetScope());
  clause noidtoken: granted && (some i:FindActiveAuthInfoById . !intok(i.res.GetScope(), "openid")) ==> res.IdToken == "";
  clause idtoken: granted && (some i:FindActiveAuthInfoById . intok(i.res.GetScope(), "openid")) ==> res.IdToken != "";
  clause idissuer: granted && res.IdToken != "" ==> jwtstr(res.IdToken, "iss") == sdi.Issuer() && jwtstr(res.IdToken, "aud") == c.GetId();
  clause idsubject: granted && res.IdToken != "" ==> (some i:FindActiveAuthInfoById . jwtstr(res.IdToken, "sub") == i.res.GetSubject());
  clause idnonce: granted && res.IdToken != "" ==> (some f:FindAuthSessionByCode . jwtstr(res.IdToken, "nonce") == f.res.GetNonce() && (jwthas(res.IdToken, "nonce") <==> f.res.GetNonce() != ""));
  clause idtimes: granted && res.IdToken != "" ==> (some f:FindAuthSessionByCode . (now() >= 0 ==> jwtnum(res.IdToken, "iat") == now()) && jwtnum(res.IdToken, "exp") == now() + f.res.GetIdTokenExpiresIn() && (f.res.GetAuthTime() >= 0 ==> jwtnum(res.IdToken, "auth_time") == f.res.GetAuthTime()));
  clause idkey: granted && res.IdToken != "" ==> jwtkey(res.IdToken) == c.GetIdTokenKey() && jwtalg(res.IdToken) == c.GetIdTokenAlg();
  cover works: granted && res.IdToken != "";
}
contract GrantPassword for C07 {
  clause token: granted ==> (some t:CreateOAuthToken . t.err == nil && fidelity(t));
  clause scope: granted ==> (some i:CreateOrUpdateAuthInfo . res.Scope == i.res.GetScope()) && res.IdToken == "";
  cover works: granted;
}
contract GrantClient for C07 {
  clause token: granted ==> (some t:CreateOAuthToken . t.err == nil && fidelity(t));
  clause scope: granted ==> (some i:CreateOrUpdateAuthInfo . res.Scope == i.res.GetScope()) && res.IdToken == "";
  cover works: granted;
}
contract GrantJWT for C07 {
  clause token: granted ==> (some t:CreateOAuthToken . t.err == nil && fidelity(t));
  clause scope: granted ==> (some i:CreateOrUpdateAuthInfo . res.Scope == i.res.GetScope()) && res.IdToken == "";
  cover works: granted;
}
contract GrantRefresh for C07 {
  clause token: granted ==> (some t:RefreshAccessToken . t.err == nil && fidelity(t));
  clause scope: granted ==> (some i:FindActiveAuthInfoById . res.Scope == i.res.GetScope()) && res.IdToken == "";
  cover works: granted;
}
contract TokenBody for C07 {
  clause object: isjson(body);
  clause token: jstr(body, "token_type") == res.TokenType && jstr(body, "access_token") == res.AccessToken && jint(body, "expires_in") == res.ExpiresIn;
  clause always: jhas(body, "token_type") && jhas(body, "access_token") && jhas(body, "expires_in");
  clause optional: jstr(body, "refresh_token") == res.RefreshToken && jstr(body, "scope") == res.Scope && jstr(body, "id_token") == res.IdToken;
  clause absent: (jhas(body, "refresh_token") <==> res.RefreshToken != "") && (jhas(body, "id_token") <==> res.IdToken != "");
}

# ---- how failures are reported
macro mapped(e) = err != nil && err.Type == (if e.err.Type() == 2 then 2 else 8);
contract GrantCode for C08 {
  clause failed: all e:FindAuthSessionByCode|FindActiveAuthInfoById|CreateOAuthToken|DisableSession . e.err != nil ==> mapped(e);
  clause nothing: all e:FindAuthSessionByCode|FindActiveAuthInfoById|CreateOAuthToken . e.err == nil && e.res == nil ==> err != nil && err.Type == 8;
  clause missing: form("redirect_uri") == "" || form("code") == "" ==> err != nil && err.Type == 3;
  clause missingpkce: (some f:FindAuthSessionByCode . f.res.GetCodeVerifier() != "") && (some i:FindActiveAuthInfoById . true) && err != nil && (form("code_challenge") == "" || form("code_challenge_method") == "") ==>
      err.Type == 3 || err.Type == 2 || err.Type == 8;
  clause mismatch: (some i:FindActiveAuthInfoById . i.err == nil && i.res != nil && i.res.GetClientId() != c.GetId()) ==> err != nil && err.Type == 2;
  clause types: err != nil ==> err.Type == 2 || err.Type == 3 || err.Type == 8;
}
contract GrantPassword for C08 {
  clause failed: all e:FindUserId|CreateOrUpdateAuthInfo|CreateOAuthToken . e.err != nil ==> mapped(e);
  clause nothing: all e:CreateOrUpdateAuthInfo|CreateOAuthToken . e.err == nil && e.res == nil ==> err != nil && err.Type == 8;
  clause missing: form("username") == "" || form("password") == "" ==> err != nil && err.Type == 3;
  clause badscope: form("username") != "" && form("password") != "" && !scopeok && (all u:FindUserId . u.err == nil) ==> err != nil && err.Type == 4;
  clause types: err != nil ==> err.Type == 2 || err.Type == 3 || err.Type == 4 || err.Type == 8;
}
contract GrantClient for C08 {
  clause failed: all e:CreateOrUpdateAuthInfo|CreateOAuthToken . e.err != nil ==> mapped(e);
  clause nothing: all e:CreateOrUpdateAuthInfo|CreateOAuthToken . e.err == nil && e.res == nil ==> err != nil && err.Type == 8;
  clause owner: c.GetOwnerUserId() < 0 && scopeok ==> err != nil && err.Type == 2;
  clause badscope: c.GetOwnerUserId() >= 0 && !scopeok ==> err != nil && err.Type == 4;
  clause types: err != nil ==> err.Type == 2 || err.Type == 4 || err.Type == 8;
}
contract GrantRefresh for C08 {
  clause failed: all e:FindOAuthTokenByRefreshToken|FindActiveAuthInfoById|RefreshAccessToken . e.err != nil ==> mapped(e);
  clause nothing: all e:FindOAuthTokenByRefreshToken|FindActiveAuthInfoById|RefreshAccessToken . e.err == nil && e.res == nil ==> err != nil && err.Type == 8;
  clause missing: form("refresh_token") == "" ==> err != nil && err.Type == 3;
  clause refused: (some f:FindOAuthTokenByRefreshToken . f.err == nil && f.res != nil && f.res.GetCreatedAt() + f.res.GetRefreshTokenExpiresIn() < now()) ==> err != nil && err.Type == 2;
  clause types: err != nil ==> err.Type == 2 || err.Type == 3 || err.Type == 8;
}
contract GrantJWT for C08 {
  clause failed: all e:FindUserIdBySubject|CreateOrUpdateAuthInfo|CreateOAuthToken . e.err != nil ==> mapped(e);
  clause nothing: all e:CreateOrUpdateAuthInfo|CreateOAuthToken . e.err == nil && e.res == nil ==> err != nil && err.Type == 8;
  clause replayed: all e:RecordAssertionClaims . e.err != nil ==> err != nil && err.Type == (if e.err.Type() == 2 then 3 else 8);
  clause missing: asr == "" ==> err != nil && err.Type == 3;
  clause types: err != nil ==> err.Type == 1 || err.Type == 2 || err.Type == 3 || err.Type == 4 || err.Type == 8;
}

# the exchange of a code applies exactly that check
contract GrantCode for C23 {
  clause pkce: granted ==> (some f:FindAuthSessionByCode . f.res.GetCodeVerifier() != "" ==>
      form("code_challenge") != "" &&
      (form("code_challenge_method") == "plain" && form("code_challenge") == f.res.GetCodeVerifier()
       || form("code_challenge_method") == "S256" && form("code_challenge") == split0(b64("url", sha256(f.res.GetCodeVerifier())), "=", 0)));
  clause createdpkce: all t:CreateOAuthToken . some f:FindAuthSessionByCode . f.res.GetCodeVerifier() == "" ||
       form("code_challenge_method") == "plain" && form("code_challenge") == f.res.GetCodeVerifier()
       || form("code_challenge_method") == "S256" && form("code_challenge") == split0(b64("url", sha256(f.res.GetCodeVerifier())), "=", 0);
  clause passes: (some f:FindAuthSessionByCode . f.err == nil && f.res != nil && f.code == formcode && formcode != "" && f.res.GetRedirectURI() == form("redirect_uri") && form("redirect_uri") != "" &&
        f.res.GetCreatedAt() + f.res.GetExpiresIn() >= now() && form("code_challenge") != "" &&
        (form("code_challenge_method") == "plain" && form("code_challenge") == f.res.GetCodeVerifier()
         || form("code_challenge_method") == "S256" && form("code_challenge") == split0(b64("url", sha256(f.res.GetCodeVerifier())), "=", 0))) &&
     (some i:FindActiveAuthInfoById . i.err == nil && i.res != nil && i.res.GetClientId() == c.GetId()) ==> (some t:CreateOAuthToken . true);
  cover workspkce: granted && (some f:FindAuthSessionByCode . f.res.GetCodeVerifier() != "");
}
