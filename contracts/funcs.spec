# prompt values are space-delimited lists (OpenID Connect Core 3.1.2.1)
macro promptword(t) = t == "none" || t == "login" || t == "consent" || t == "select_account";

func prompt.Include(prompts, target) for C22 {
  flag use;
  invariant notyet: !intokn(prompts, target, $k);
  invariant sofar: $b <==> intokn(prompts, target, $k);
  invariant keys: forall s:string . mem($m, s) <==> intokn(prompts, s, $k);
  returns intok(prompts, target);
}
func prompt.IncludeAll(prompts, targetPrompts) for C22 {
  flag use;
  invariant keys: forall s:string . mem($m, s) <==> intokn(prompts, s, $k);
  invariant sofar: forall i in 0:$k . intok(prompts, at(targetPrompts, i));
  ensures verdict: ret0 <==> (forall i in 0:len(targetPrompts) . intok(prompts, at(targetPrompts, i)));
  ensures witness: !ret0 ==> (exists i in 0:len(targetPrompts) . at(targetPrompts, i) == ret1 && !intok(prompts, ret1));
  ensures none: ret0 ==> ret1 == "";
}
func prompt.Validate(prompts) for C22 {
  flag use;
  invariant words: forall i in 0:$k . promptword(tok(prompts, i));
  invariant keys: forall s:string . mem($m, s) <==> intokn(prompts, s, $k);
  invariant none: $b <==> intokn(prompts, "none", $k);
  invariant nones: $n > 0 <==> intokn(prompts, "none", $k);
  invariant others: $n > 0 <==> intokn(prompts, "login", $k) || intokn(prompts, "consent", $k) || intokn(prompts, "select_account", $k);
  invariant other: $b <==> intokn(prompts, "login", $k) || intokn(prompts, "consent", $k) || intokn(prompts, "select_account", $k);
  ensures verdict: ret0 <==> (forall i in 0:ntok(prompts) . promptword(tok(prompts, i))) &&
    !(intok(prompts, "none") && (intok(prompts, "login") || intok(prompts, "consent") || intok(prompts, "select_account")));
}
func prompt.IncludeNone(prompts) for C22 { returns intok(prompts, "none"); }
func prompt.IncludeLogin(prompts) for C22 { returns intok(prompts, "login"); }
func prompt.IncludeConsent(prompts) for C22 { returns intok(prompts, "consent"); }
func prompt.IncludeSelectAccount(prompts) for C22 { returns intok(prompts, "select_account"); }

# ---- response modes, weakest first: query, fragment, form_post
macro level(m) = if m == "query" then 0 else if m == "fragment" then 1 else if m == "form_post" then 2 else 0 - 1;
func response_mode.Validate(mode) for C14 { returns mode == "query" || mode == "fragment" || mode == "form_post"; }
func response_mode.CompareSecurityLevel(target, base) for C14 { returns level(target) >= level(base); }

# ---- response types
func flow.JudgeByResponseType(rt) for C20 {
  ensures outcome: (ret0 == nil) <==> (ret1 != nil);
  ensures supported: ret1 == nil <==> (sorttok(rt) == "code" || sorttok(rt) == "code id_token" || sorttok(rt) == "code id_token token" ||
     sorttok(rt) == "code token" || sorttok(rt) == "id_token" || sorttok(rt) == "id_token token" || sorttok(rt) == "token");
  ensures code: sorttok(rt) == "code" ==> ret0.Type == 0 && !ret0.RequireAccessToken && !ret0.RequireIdToken;
  ensures implicit: (sorttok(rt) == "id_token" || sorttok(rt) == "token" || sorttok(rt) == "id_token token") ==> ret0.Type == 1;
  ensures hybrid: (sorttok(rt) == "code id_token" || sorttok(rt) == "code token" || sorttok(rt) == "code id_token token") ==> ret0.Type == 2;
  ensures access: ret1 == nil ==> (ret0.RequireAccessToken <==> sorttok(rt) == "token" || sorttok(rt) == "code token" || sorttok(rt) == "id_token token" || sorttok(rt) == "code id_token token");
  ensures idtoken: ret1 == nil ==> (ret0.RequireIdToken <==> sorttok(rt) == "id_token" || sorttok(rt) == "code id_token" || sorttok(rt) == "id_token token" || sorttok(rt) == "code id_token token");
}

# ---- proof key for code exchange
macro s256(s) = split0(b64("url", sha256(s)), "=", 0);
func pkce.EncodeBase64WithoutPadding(b) for C23 { returns split0(b64("url", bytes(b)), "=", 0); }
func pkce.S256Encode(s) for C23 { returns s256(s); }
func pkce.FindVerifierByMethod(m) for C23 {
  ensures known: ret1 == nil <==> (m == "plain" || m == "S256");
  ensures outcome: (ret0 == nil) <==> (ret1 != nil);
  ensures plain: m == "plain" ==> (forall c:string . forall v:string . ret0.Verify(c, v) <==> c == v);
  ensures s256: m == "S256" ==> (forall c:string . forall v:string . ret0.Verify(c, v) <==> c == s256(v));
}

# ---- client credentials
func basic_auth.Token(uid, pass) for C28 { returns b64("std", qescape(uid) ++ ":" ++ qescape(pass)); }
func basic_auth.Header(uid, pass) for C28 { returns "Basic " ++ b64("std", qescape(uid) ++ ":" ++ qescape(pass)); }
func basic_auth.FindClientCredential(r) for C28 {
  ensures header: basicok() ==> ret2 && ret0 == basicuser() && ret1 == basicpass();
  ensures form: !basicok() ==> (ret2 <==> form("client_id") != "" && form("client_secret") != "");
  ensures formval: !basicok() && ret2 ==> ret0 == form("client_id") && ret1 == form("client_secret");
  ensures empty: !ret2 ==> ret0 == "" && ret1 == "";
}

# A header built from a pair is read back as the (escaped) pair.
contract BasicRoundTrip for C28 {
  clause roundtrip: ok && id == uid && secret == pass;
  clause escaped: ok && id == qescape(uid) && secret == qescape(pass);
}
