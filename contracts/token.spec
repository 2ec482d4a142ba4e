# ---- token endpoint -------------------------------------------------------
# Token drives an endpoint with an arbitrary credential policy and two arbitrary
# grant handlers. `method` is 0 (Authorization header only), 1 (header or body)
# or 2 (header, body or query).

macro gt = form("grant_type");
macro registered(g) = if h2.Type == gt then g.handler == h2.Func else h1.Type == gt && g.handler == h1.Func;
macro isregistered = gt != "" && (h1.Type == gt || h2.Type == gt);
macro formid = if method == 1 then postform("client_id") else if method == 2 then form("client_id") else "";
macro formsec = if method == 1 then postform("client_secret") else if method == 2 then form("client_secret") else "";
macro secretgiven = basicok() || formid != "" && formsec != "";
macro clientid = if basicok() then basicuser() else formid;
macro clientsec = if basicok() then basicpass() else formsec;
macro ca = form("client_assertion");
macro assertiongiven = assertions && ca != "" && form("client_assertion_type") == "urn:ietf:params:oauth:client-assertion-type:jwt-bearer";
macro bysecret(cl, e) = secretgiven && cl.MatchSecret(clientsec) && (some f:FindClientById . f < e && f.clientId == clientid && f.err == nil && f.res == cl);
macro cakey(cl) = cl.GetAssertionKey(jwthdrstr(ca, "alg"), jwthdrstr(ca, "kid"));
macro caclaims = jwtisnum(ca, "exp") && jwttimeok(ca) && jwtisstr(ca, "aud") && jwtstr(ca, "aud") == sdi.Issuer() && sdi.Issuer() != "";
macro casigned(cl) = jwtparsed(ca) && cakey(cl) != nil && jwtsigok(ca, cakey(cl));
macro caidentity(cl, e) = jwtisstr(ca, "sub") && (some f:FindClientById . f < e && f.clientId == jwtstr(ca, "sub") && f.err == nil && f.res == cl);
macro byassertion(cl, e) = !secretgiven && assertiongiven && casigned(cl) && caclaims && caidentity(cl, e) &&
   (some a:RecordAssertionClaims . a < e && a.err == nil && a.clientId == cl.GetId() && a.jti == jwtstr(ca, "jti") && a.expiredAt == jwtnum(ca, "exp") &&
      a.issuedAt == (if jwtisnum(ca, "iat") then jwtnum(ca, "iat") else 0 - 1));

contract Token for C01 {
  requires method == 0 || method == 1 || method == 2;
  clause post: all g:Grant . r.Method == "POST";
  # only the handler registered for the requested grant type runs
  clause handler: all g:Grant . gt != "" && registered(g);
  # the client proved its identity
  clause authenticated: all g:Grant . g.client != nil && (bysecret(g.client, g) || byassertion(g.client, g));
  # the client may use this grant type
  clause allowed: all g:Grant . g.client.CanUseGrantType(gt);
  clause once: all a:Grant . all b:Grant . a == b;
  clause clock: all g:Grant . unix(g.time) == now();
  # and an entitled client is served
  clause servedsecret: r.Method == "POST" && isregistered && secretgiven &&
      (all f:FindClientById . f.err == nil && f.res != nil && f.res.MatchSecret(clientsec) && f.res.CanUseGrantType(gt)) ==> (some g:Grant . true);
  clause servedassertion: r.Method == "POST" && isregistered && !secretgiven && assertiongiven && caclaims && jwtparsed(ca) && jwtisstr(ca, "sub") &&
      (all f:FindClientById . f.err == nil && f.res != nil && casigned(f.res) && f.res.CanUseGrantType(gt)) && (all a:RecordAssertionClaims . a.err == nil) ==> (some g:Grant . true);
  cover secret: (some g:Grant . secretgiven);
  cover assertion: (some g:Grant . !secretgiven);
  cover second: (some g:Grant . h1.Type == h2.Type);
}
contract TokenDefault for C01 {
  clause post: all g:Grant . r.Method == "POST";
  clause handler: all g:Grant . gt != "" && h1.Type == gt && g.handler == h1.Func;
  clause authenticated: all g:Grant . g.client != nil && basicok() && g.client.MatchSecret(basicpass()) &&
      (some f:FindClientById . f < g && f.clientId == basicuser() && f.err == nil && f.res == g.client);
  clause allowed: all g:Grant . g.client.CanUseGrantType(gt);
  cover works: (some g:Grant . true);
}

contract Token for C02 {
  requires method == 0 || method == 1 || method == 2;
  # credentials are taken from the places the endpoint was configured to accept, the header first
  clause lookup: all f:FindClientById . if secretgiven then f.clientId == clientid else assertiongiven && jwtparsed(ca) && jwtisstr(ca, "sub") && f.clientId == jwtstr(ca, "sub");
  clause noform: method == 0 && !basicok() && !assertions ==> (all f:FindClientById|Grant . false);
  clause headeronly: method == 0 && !basicok() && ca == "" ==> (all f:FindClientById|Grant . false);
  clause bodyonly: method == 1 && !basicok() && (postform("client_id") == "" || postform("client_secret") == "") && ca == "" ==> (all f:FindClientById|Grant . false);
  clause both: !basicok() && method == 2 && (form("client_id") == "" || form("client_secret") == "") && ca == "" ==> (all f:FindClientById|Grant . false);
  clause first: basicok() && (some g:Grant . true) ==> (some f:FindClientById . f.clientId == basicuser() && f.res.MatchSecret(basicpass()));
  clause noassertion: !assertions ==> (all p:ParseToken . false);
  clause looked: all p:ParseToken . !secretgiven && assertiongiven && p.token == ca;
  clause recorded: all a:RecordAssertionClaims . !secretgiven && assertiongiven;
  clause asked: r.Method == "POST" && isregistered && secretgiven ==> (some f:FindClientById . true);
  clause askedassertion: r.Method == "POST" && isregistered && !secretgiven && assertiongiven && jwtparsed(ca) && jwtisstr(ca, "sub") ==> (some f:FindClientById . true);
  cover header: basicok() && (some g:Grant . true);
  cover body: !basicok() && method == 1 && (some g:Grant . true);
  cover all: !basicok() && method == 2 && postform("client_id") == "" && (some g:Grant . true);
}
contract TokenDefault for C02 {
  clause header: all f:FindClientById . basicok() && f.clientId == basicuser();
  clause noassertion: all p:ParseToken . false;
}

# client assertions (RFC 7523 section 3)
contract Token for C09 {
  requires method == 0 || method == 1 || method == 2;
  clause signature: all g:Grant . !secretgiven ==> casigned(g.client);
  clause identity: all g:Grant . !secretgiven ==> caidentity(g.client, g);
  clause lifetime: all g:Grant . !secretgiven ==> jwtisnum(ca, "exp") && jwttimeok(ca);
  clause audience: all g:Grant . !secretgiven ==> jwtisstr(ca, "aud") && jwtstr(ca, "aud") == sdi.Issuer() && sdi.Issuer() != "";
  clause replay: all g:Grant . !secretgiven ==> byassertion(g.client, g);
  clause recordsigned: all a:RecordAssertionClaims . !secretgiven && assertiongiven && jwttimeok(ca) && (some f:FindClientById . f < a && f.err == nil && f.res != nil && casigned(f.res) && a.clientId == f.res.GetId());
  clause kind: all a:RecordAssertionClaims|ParseToken . form("client_assertion_type") == "urn:ietf:params:oauth:client-assertion-type:jwt-bearer";
  cover works: (some g:Grant . !secretgiven);
}

# what comes back
macro status(n) = (some w1:WriteHeader . w1.code == n);
macro errtypename(t) = if t == 0 then "access_denied" else if t == 1 then "invalid_client" else if t == 2 then "invalid_grant" else if t == 3 then "invalid_request" else
   if t == 4 then "invalid_scope" else if t == 5 then "unauthorized_client" else if t == 6 then "unsupported_grant_type" else if t == 7 then "unsupported_response_type" else
   if t == 8 then "server_error" else if t == 9 then "temporarily_unavailable" else if t == 10 then "invalid_token" else if t == 11 then "insufficient_scope" else
   if t == 12 then "interaction_required" else if t == 13 then "login_required" else if t == 14 then "account_selection_required" else if t == 15 then "consent_required" else
   if t == 16 then "invalid_request_uri" else if t == 17 then "invalid_request_object" else if t == 18 then "request_not_supported" else
   if t == 19 then "request_uri_not_supported" else if t == 20 then "registration_not_supported" else "";
macro errstatus(t) = if t == 0 || t == 11 then 403 else if t == 10 then 401 else if t == 1 || t == 2 || t == 3 || t == 4 || t == 5 || t == 6 || t == 7 then 400 else 500;
macro failedwith(t) = (some b:Write . jstr(bytes(b.body), "error") == errtypename(t)) && status(errstatus(t));

macro errorpage(t) = if errorURIOrNil == nil then "" else erruri(errorURIOrNil, t);

contract OAuthErr for C08 {
  requires 0 <= typ && typ <= 20;
  clause status: code == errstatus(typ);
  clause json: isjson(body) && jstr(body, "error") == errtypename(typ) && jhas(body, "error") && jstr(body, "error_description") == desc && jstr(body, "error_uri") == uri;
  clause jsonabsent: (jhas(body, "error_description") <==> desc != "") && (jhas(body, "error_uri") <==> uri != "");
  clause text: text == (if desc == "" then errtypename(typ) else errtypename(typ) ++ ": " ++ desc);
  clause query: query == uenc("error", true, errtypename(typ), "error_description", desc != "", desc, "error_uri", uri != "", uri, "state", state != "", state);
  clause header: header == "Bearer " ++ (if realm == "" then "" else "realm=" ++ quote(realm) ++ ", ") ++ "error=" ++ quote(errtypename(typ)) ++
     (if desc == "" then "" else ", error_description=" ++ quote(desc)) ++ (if uri == "" then "" else ", error_uri=" ++ quote(uri));
}

contract Token for C08 {
  requires method == 0 || method == 1 || method == 2;
  # exactly one status line and, for requests by POST, exactly one body after it
  clause onestatus: (some a:WriteHeader . true) && (all a:WriteHeader . all b:WriteHeader . a == b);
  clause onebody: r.Method == "POST" ==> (some b:Write . true) && (all b:Write . all d:Write . b == d);
  clause order: all b:Write . some a:WriteHeader . a < b;
  clause wrongmethod: r.Method != "POST" ==> status(405) && (all b:Write|FindClientById|Grant . false);
  # never cached, always JSON
  clause nostore: r.Method == "POST" ==> (all a:WriteHeader . a.header("Cache-Control") == "no-store" && a.header("Pragma") == "no-cache" && a.header("Content-Type") == "application/json; charset=UTF-8");
  # a granted response carries the handler's result; a refusal the handler's error
  clause success: all g:Grant . g.err == nil ==> status(200) && (some b:Write . bytes(b.body) == bytes(g.res.JSON()));
  clause refusal: all g:Grant . g.err != nil ==> status(g.err.StatusCode()) && (some b:Write . jstr(bytes(b.body), "error") == errtypename(g.err.Type));
  clause refusaltext: all g:Grant . g.err != nil && g.err.Description != "" ==> (all b:Write . jstr(bytes(b.body), "error_description") == g.err.Description);
  clause only200: status(200) ==> (some g:Grant . g.err == nil);
  # the error page configured for the endpoint is named, unless the handler named its own
  clause ownuri: all g:Grant . g.err != nil && g.err.URI != "" ==> (all b:Write . jstr(bytes(b.body), "error_uri") == g.err.URI);
  clause pageuri: all g:Grant . g.err != nil && g.err.URI == "" ==> (all b:Write . jstr(bytes(b.body), "error_uri") == errorpage(g.err.Type));
  clause endpointuri1: (all g:Grant . false) ==> (all b:Write . jstr(bytes(b.body), "error") == errtypename(1) ==> jstr(bytes(b.body), "error_uri") == errorpage(1));
  clause endpointuri3: (all g:Grant . false) ==> (all b:Write . jstr(bytes(b.body), "error") == errtypename(3) ==> jstr(bytes(b.body), "error_uri") == errorpage(3));
  clause endpointuri5: (all g:Grant . false) ==> (all b:Write . jstr(bytes(b.body), "error") == errtypename(5) ==> jstr(bytes(b.body), "error_uri") == errorpage(5));
  clause endpointuri6: (all g:Grant . false) ==> (all b:Write . jstr(bytes(b.body), "error") == errtypename(6) ==> jstr(bytes(b.body), "error_uri") == errorpage(6));
  clause endpointuri8: (all g:Grant . false) ==> (all b:Write . jstr(bytes(b.body), "error") == errtypename(8) ==> jstr(bytes(b.body), "error_uri") == errorpage(8));
  # the other refusals
  clause missing: r.Method == "POST" && gt == "" ==> failedwith(3);
  clause unsupported: r.Method == "POST" && gt != "" && !isregistered ==> failedwith(6);
  clause nocredential: r.Method == "POST" && isregistered && !secretgiven && !assertiongiven ==> status(401) && (some b:Write . jstr(bytes(b.body), "error") == "invalid_client") &&
     (all a:WriteHeader . a.header("WWW-Authenticate") == "Basic realm=\"" ++ realm ++ "\"");
  clause badsecret: r.Method == "POST" && isregistered && secretgiven && (some f:FindClientById . f.err == nil && f.res != nil && !f.res.MatchSecret(clientsec)) ==>
     (some b:Write . jstr(bytes(b.body), "error") == "invalid_client") && status(if basicok() then 401 else 400);
  clause challenge: basicok() && (some b:Write . jstr(bytes(b.body), "error") == "invalid_client") && (all g:Grant . false) ==> status(401) && (all a:WriteHeader . a.header("WWW-Authenticate") == "Basic realm=\"" ++ realm ++ "\"");
  clause unauthorized: r.Method == "POST" && isregistered && secretgiven && (some f:FindClientById . f.err == nil && f.res != nil && f.res.MatchSecret(clientsec) && !f.res.CanUseGrantType(gt)) ==> failedwith(5);
  clause unauthorizedassertion: r.Method == "POST" && isregistered && !secretgiven && assertiongiven && caclaims && (all a:RecordAssertionClaims . a.err == nil) &&
     (some f:FindClientById . f.err == nil && f.res != nil && casigned(f.res) && !f.res.CanUseGrantType(gt)) ==> failedwith(5);
  clause store: r.Method == "POST" && secretgiven ==> (all f:FindClientById . f.err != nil && f.err.Type() != 2 || f.err == nil && f.res == nil ==> failedwith(8));
  clause storeassertion: !secretgiven ==> (all f:FindClientById . f.err != nil && f.err.Type() != 2 || f.err == nil && f.res == nil ==> failedwith(8));
  clause storerecord: all a:RecordAssertionClaims . a.err != nil ==> failedwith(if a.err.Type() == 2 then 3 else 8);
  clause unknownclient: !secretgiven ==> (all f:FindClientById . f.err != nil && f.err.Type() == 2 ==> failedwith(1));
  clause unknownclient2: secretgiven ==> (all f:FindClientById . f.err != nil && f.err.Type() == 2 ==> (some b:Write . jstr(bytes(b.body), "error") == "invalid_client"));
  cover granted: status(200);
  cover refused: status(401);
}

contract TokenDefault for C08 {
  # a fixed error page is named in every refusal that does not name its own
  clause fixeduri: all b:Write . (all g:Grant . g.err != nil && g.err.URI == "") && !status(200) ==> jstr(bytes(b.body), "error_uri") == uri;
  cover refused: uri != "" && status(401);
}
# the grants answer to their standard names
contract GrantCode for C08 { clause name: typ == "authorization_code"; }
contract GrantPassword for C08 { clause name: typ == "password"; }
contract GrantClient for C08 { clause name: typ == "client_credentials"; }
contract GrantRefresh for C08 { clause name: typ == "refresh_token"; }
