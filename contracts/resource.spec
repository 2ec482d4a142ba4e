# ---- protected resources ----------------------------------------------------
# Protect validates one request; `method` is 0 (Authorization header only),
# 1 (header or body) or 2 (header, body or query); `ok` is the verdict.

macro authhdr = reqhdr("Authorization");
macro bearergiven = splitn(authhdr, " ") >= 2 && lower(split0(authhdr, " ", 0)) == "bearer" && split0(authhdr, " ", 1) != "";
macro presented = if bearergiven then split0(authhdr, " ", 1) else if method == 1 then postform("access_token") else if method == 2 then form("access_token") else "";
macro tokenlive(f) = f.err == nil && f.res != nil && f.res.GetRefreshedAt() + f.res.GetAccessTokenExpiresIn() >= now();
macro refusal(n) = (some w1:WriteHeader . w1.code == n);
macro bearer(e) = (all w1:WriteHeader . hasprefix(w1.header("WWW-Authenticate"), "Bearer ") && contains(w1.header("WWW-Authenticate"), "error=\"" ++ e ++ "\"") &&
   (realm == "" || contains(w1.header("WWW-Authenticate"), "realm=" ++ quote(realm))));

contract Protect for C10 {
  requires method == 0 || method == 1 || method == 2;
  # only the presented token is looked up, and only that token's authorization
  clause lookup: all f:FindOAuthTokenByAccessToken . presented != "" && f.token == presented;
  clause lookupinfo: all i:FindActiveAuthInfoById . some f:FindOAuthTokenByAccessToken . f < i && tokenlive(f) && i.id == f.res.GetAuthId();
  # soundness
  clause live: ok ==> (some f:FindOAuthTokenByAccessToken . tokenlive(f) && f.token == presented);
  clause active: ok ==> (some f:FindOAuthTokenByAccessToken . some i:FindActiveAuthInfoById . i.id == f.res.GetAuthId() && i.err == nil && i.res != nil);
  # completeness
  clause admitted: presented != "" && (all f:FindOAuthTokenByAccessToken . tokenlive(f)) && (all i:FindActiveAuthInfoById . i.err == nil && i.res != nil) ==> ok;
  # the identity handed to the application is the token's, whatever the client sent
  clause userid: ok ==> (some i:FindActiveAuthInfoById . reqhdr2("X-OAUTH-USER-ID") == itoa(i.res.GetUserId()));
  clause clientid: ok ==> (some i:FindActiveAuthInfoById . reqhdr2("X-OAUTH-CLIENT-ID") == i.res.GetClientId());
  clause scope: ok ==> (some i:FindActiveAuthInfoById . reqhdr2("X-OAUTH-SCOPE") == i.res.GetScope());
  clause user: ok ==> (some i:FindActiveAuthInfoById . reqhdr2("X-OAUTH-USER-ID") == itoa(i.res.GetUserId()) && reqhdr2("X-OAUTH-CLIENT-ID") == i.res.GetClientId());
  # answers
  clause silent: ok ==> (all w1:WriteHeader|Write . false);
  clause onestatus: !ok ==> (some a:WriteHeader . true) && (all a:WriteHeader . all b:WriteHeader . a == b);
  clause errorstatus: all a:WriteHeader . a.code >= 400;
  clause missing: presented == "" ==> !ok && refusal(400) && bearer("invalid_request");
  clause unknown: all f:FindOAuthTokenByAccessToken . f.err != nil && f.err.Type() == 2 ==> !ok && refusal(401) && bearer("invalid_token");
  clause expired: all f:FindOAuthTokenByAccessToken . f.err == nil && f.res != nil && !tokenlive(f) ==> !ok && refusal(401) && bearer("invalid_token");
  clause inactive: all i:FindActiveAuthInfoById . i.err != nil && i.err.Type() == 2 ==> !ok && refusal(401) && bearer("invalid_token");
  clause storefault: all e:FindOAuthTokenByAccessToken|FindActiveAuthInfoById . e.err != nil && e.err.Type() != 2 || e.err == nil && e.res == nil ==> !ok && refusal(500);
  clause uri: all a:WriteHeader . a.code == 401 || a.code == 400 ==> isnil(errorURIOrNil) ||
     (all w1:WriteHeader . erruri(errorURIOrNil, if a.code == 401 then 10 else 3) == "" || contains(w1.header("WWW-Authenticate"), "error_uri=" ++ quote(erruri(errorURIOrNil, if a.code == 401 then 10 else 3))));
  cover admits: ok;
  cover body: ok && method == 1 && !bearergiven;
  cover query: ok && method == 2 && !bearergiven;
  cover tooold: (some f:FindOAuthTokenByAccessToken . f.err == nil && f.res != nil && !tokenlive(f));
}

macro required = get(scopes, r.URL.Path);
contract ProtectScopes for C10 {
  requires method == 0 || method == 1 || method == 2;
  clause lookup: all f:FindOAuthTokenByAccessToken . presented != "" && f.token == presented;
  clause lookupinfo: all i:FindActiveAuthInfoById . some f:FindOAuthTokenByAccessToken . f < i && tokenlive(f) && i.id == f.res.GetAuthId();
  clause live: ok ==> (some f:FindOAuthTokenByAccessToken . tokenlive(f) && f.token == presented);
  clause active: ok ==> (some f:FindOAuthTokenByAccessToken . some i:FindActiveAuthInfoById . i.id == f.res.GetAuthId() && i.err == nil && i.res != nil);
  clause userid: ok ==> (some i:FindActiveAuthInfoById . reqhdr2("X-OAUTH-USER-ID") == itoa(i.res.GetUserId()));
  clause clientid: ok ==> (some i:FindActiveAuthInfoById . reqhdr2("X-OAUTH-CLIENT-ID") == i.res.GetClientId());
  clause scope: ok ==> (some i:FindActiveAuthInfoById . reqhdr2("X-OAUTH-SCOPE") == i.res.GetScope());
  clause silent: ok ==> (all w1:WriteHeader|Write . false);
  clause onestatus: !ok ==> (some a:WriteHeader . true) && (all a:WriteHeader . all b:WriteHeader . a == b);
  clause missing: presented == "" ==> !ok && refusal(400) && bearer("invalid_request");
  clause unknown: all f:FindOAuthTokenByAccessToken . f.err != nil && f.err.Type() == 2 ==> !ok && refusal(401) && bearer("invalid_token");
  clause expired: all f:FindOAuthTokenByAccessToken . f.err == nil && f.res != nil && !tokenlive(f) ==> !ok && refusal(401) && bearer("invalid_token");
  clause inactive: all i:FindActiveAuthInfoById . i.err != nil && i.err.Type() == 2 ==> !ok && refusal(401) && bearer("invalid_token");
  cover admits: ok;
}
contract ProtectScopes for C11 {
  requires method == 0 || method == 1 || method == 2;
  clause enforced: ok && has(scopes, r.URL.Path) ==> (some i:FindActiveAuthInfoById . i.err == nil && i.res != nil &&
      (forall k in 0:len(required) . intok(i.res.GetScope(), at(required, k))));
  clause valid: ok ==> (some f:FindOAuthTokenByAccessToken . some i:FindActiveAuthInfoById . tokenlive(f) && f.token == presented && i.err == nil && i.res != nil && i.id == f.res.GetAuthId());
  clause insufficient: (some f:FindOAuthTokenByAccessToken . tokenlive(f)) && has(scopes, r.URL.Path) && (some i:FindActiveAuthInfoById . i.err == nil && i.res != nil &&
      (exists k in 0:len(required) . !intok(i.res.GetScope(), at(required, k)))) ==> !ok && refusal(403) && bearer("insufficient_scope");
  clause admitted: presented != "" && (all f:FindOAuthTokenByAccessToken . tokenlive(f)) && (all i:FindActiveAuthInfoById . i.err == nil && i.res != nil &&
      (has(scopes, r.URL.Path) ==> (forall k in 0:len(required) . intok(i.res.GetScope(), at(required, k))))) ==> ok;
  clause onestatus: !ok ==> (some a:WriteHeader . true) && (all a:WriteHeader . all b:WriteHeader . a == b);
  clause silent: ok ==> (all w1:WriteHeader|Write . false);
  cover admits: ok && has(scopes, r.URL.Path) && len(required) > 1;
  cover refuses: refusal(403);
}
