# ---- ID tokens -----------------------------------------------------------------
macro half(alg, t) = if hassuffix(alg, "256") then substr(sha256(t), 0, 16) else if hassuffix(alg, "384") then substr(sha384(t), 0, 24) else substr(sha512(t), 0, 32);
macro hashable(alg) = hassuffix(alg, "256") || hassuffix(alg, "384") || hassuffix(alg, "512");
func id_token.Hash(alg, token) for C19 {
  ensures known: ret1 == nil <==> hashable(alg);
  ensures none: ret1 != nil ==> ret0 == "";
  ensures half: ret1 == nil ==> ret0 == b64("rawurl", half(alg, token)) || ret0 == b64("std", half(alg, token));
  ensures unpadded: ret1 == nil ==> ret0 == b64("rawurl", half(alg, token));
}

# what an ID token says: its claims are exactly these, under the given key
macro unpaddedhash(T, c, alg, t) = jwtstr(T, c) == b64("rawurl", half(alg, t));
macro hashclaim(T, c, alg, t) = jwtisstr(T, c) && (jwtstr(T, c) == b64("rawurl", half(alg, t)) || jwtstr(T, c) == b64("std", half(alg, t)));
macro claims(T, authtime, iat, nonce, at, code) = forall s:string . jwthas(T, s) <==> s == "iss" || s == "aud" || s == "sub" || s == "exp" ||
   s == "nonce" && nonce != "" || s == "iat" && iat >= 0 || s == "auth_time" && authtime >= 0 || s == "at_hash" && at || s == "c_hash" && code;
macro facts(T, iss, aud, sub, exp) = jwtisstr(T, "iss") && jwtstr(T, "iss") == iss && jwtisstr(T, "aud") && jwtstr(T, "aud") == aud &&
   jwtisstr(T, "sub") && jwtstr(T, "sub") == sub && jwtisnum(T, "exp") && jwtnum(T, "exp") == exp;
macro times(T, authtime, iat) = (iat >= 0 ==> jwtisnum(T, "iat") && jwtnum(T, "iat") == iat) && (authtime >= 0 ==> jwtisnum(T, "auth_time") && jwtnum(T, "auth_time") == authtime);
macro signedby(T, alg, key, kid) = jwtalg(T) == alg && jwtkey(T) == key && (jwthdrhas(T, "kid") <==> kid != "") && (kid != "" ==> jwthdrstr(T, "kid") == kid);

func id_token.Gen(alg, key, kid, iss, client, subject, nonce, expiresIn, authTime, instant) for C19 {
  ensures outcome: ret1 == nil <==> jwtalgknown(alg) && jwtsignok(alg, key);
  ensures none: ret1 != nil ==> ret0 == "";
  ensures signed: ret1 == nil ==> signedby(ret0, alg, key, kid);
  ensures claims: ret1 == nil ==> claims(ret0, authTime, unix(instant), nonce, false, false);
  ensures facts: ret1 == nil ==> facts(ret0, iss, client, subject, unix(instant) + expiresIn);
  ensures times: ret1 == nil ==> times(ret0, authTime, unix(instant));
  ensures nonce: ret1 == nil && nonce != "" ==> jwtisstr(ret0, "nonce") && jwtstr(ret0, "nonce") == nonce;
}
func id_token.GenForImplicit(alg, key, kid, iss, client, subject, nonce, expiresIn, authTime, accessToken, instant) for C19 {
  ensures outcome: ret1 == nil <==> jwtalgknown(alg) && jwtsignok(alg, key) && (accessToken != "" ==> hashable(alg));
  ensures none: ret1 != nil ==> ret0 == "";
  ensures signed: ret1 == nil ==> signedby(ret0, alg, key, kid);
  ensures claims: ret1 == nil ==> claims(ret0, authTime, unix(instant), nonce, accessToken != "", false);
  ensures facts: ret1 == nil ==> facts(ret0, iss, client, subject, unix(instant) + expiresIn);
  ensures times: ret1 == nil ==> times(ret0, authTime, unix(instant));
  ensures nonce: ret1 == nil && nonce != "" ==> jwtisstr(ret0, "nonce") && jwtstr(ret0, "nonce") == nonce;
  ensures athash: ret1 == nil && accessToken != "" ==> hashclaim(ret0, "at_hash", alg, accessToken);
}
func id_token.GenForHybrid(alg, key, kid, iss, client, subject, nonce, expiresIn, authTime, accessToken, code, instant) for C19 {
  ensures outcome: ret1 == nil <==> jwtalgknown(alg) && jwtsignok(alg, key) && hashable(alg);
  ensures none: ret1 != nil ==> ret0 == "";
  ensures signed: ret1 == nil ==> signedby(ret0, alg, key, kid);
  ensures claims: ret1 == nil ==> claims(ret0, authTime, unix(instant), nonce, accessToken != "", true);
  ensures facts: ret1 == nil ==> facts(ret0, iss, client, subject, unix(instant) + expiresIn);
  ensures times: ret1 == nil ==> times(ret0, authTime, unix(instant));
  ensures nonce: ret1 == nil && nonce != "" ==> jwtisstr(ret0, "nonce") && jwtstr(ret0, "nonce") == nonce;
  ensures athash: ret1 == nil && accessToken != "" ==> hashclaim(ret0, "at_hash", alg, accessToken);
  ensures chash: ret1 == nil ==> hashclaim(ret0, "c_hash", alg, code);
}

# every ID token that leaves states the facts of its own authentication
contract GrantCode for C19 {
  clause signed: granted && res.IdToken != "" ==> signedby(res.IdToken, c.GetIdTokenAlg(), c.GetIdTokenKey(), c.GetIdTokenKeyId());
  clause facts: granted && res.IdToken != "" ==> (some f:FindAuthSessionByCode . some i:FindActiveAuthInfoById . facts(res.IdToken, sdi.Issuer(), i.res.GetClientId(), i.res.GetSubject(), now() + f.res.GetIdTokenExpiresIn()));
  clause times: granted && res.IdToken != "" ==> (some f:FindAuthSessionByCode . times(res.IdToken, f.res.GetAuthTime(), now()));
  clause nonce: granted && res.IdToken != "" ==> (some f:FindAuthSessionByCode . f.res.GetNonce() != "" ==> jwtisstr(res.IdToken, "nonce") && jwtstr(res.IdToken, "nonce") == f.res.GetNonce());
  clause claims: granted && res.IdToken != "" ==> (some f:FindAuthSessionByCode . claims(res.IdToken, f.res.GetAuthTime(), now(), f.res.GetNonce(), false, false));
  cover works: granted && res.IdToken != "";
}
contract Complete for C19 {
  clause idtsigned: all p:Respond . all c:Continue . p.kind == "Success" && c.res.Flow.Type != 0 && c.res.Flow.RequireIdToken ==>
     (some f:FindClientById . f < p && f.clientId == c.res.ClientId && f.err == nil && f.res != nil && idtsigned(p, f.res) && idtaccess(p, f.res.GetIdTokenAlg()) && (c.res.Flow.Type == 2 ==> idtcode(p, f.res.GetIdTokenAlg())));
  clause idtfacts: all p:Respond . all c:Continue . p.kind == "Success" && c.res.Flow.Type != 0 && c.res.Flow.RequireIdToken ==> (some i:CreateOrUpdateAuthInfo . i < p && idtfacts(p, i.res));
  clause idttimes: all p:Respond . all c:Continue . p.kind == "Success" && c.res.Flow.Type != 0 && c.res.Flow.RequireIdToken ==> idttimes(p) && idtnonce(p, c.res.Nonce);
  clause idtclaims: all p:Respond . all c:Continue . p.kind == "Success" && c.res.Flow.Type != 0 && c.res.Flow.RequireIdToken ==>
     idtclaims(p, c.res.Flow.Type, c.res.Flow.RequireAccessToken, c.res.Nonce);
  cover both: some p:Respond . p.kind == "Success" && has(p.params, "access_token") && has(p.params, "code") && has(p.params, "id_token");
}
contract Authorize for C19 {
  clause idtsigned: all p:Respond . p.kind == "Success" && !rtcode && rtid ==>
     (some f:FindClientById . f < p && theclient(f) && idtsigned(p, f.res) && idtaccess(p, f.res.GetIdTokenAlg()) && (rthybrid ==> idtcode(p, f.res.GetIdTokenAlg())));
  clause idtfacts: all p:Respond . p.kind == "Success" && !rtcode && rtid ==> (some i:FindAuthInfoByUserIdAndClientId . i < p && idtfacts(p, i.res));
  clause idttimes: all p:Respond . p.kind == "Success" && !rtcode && rtid ==> idttimes(p) && idtnonce(p, form("nonce"));
  clause idtclaims: all p:Respond . p.kind == "Success" && !rtcode && rtid ==> idtclaims(p, ftype, rtaccess, form("nonce"));
  cover both: some p:Respond . p.kind == "Success" && has(p.params, "access_token") && has(p.params, "code") && has(p.params, "id_token");
}
