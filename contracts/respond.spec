# ---- the front channel ---------------------------------------------------------
# Respond* send authorization responses through the handler of a response mode.

macro qconn(u) = if urlok(u) && urlquery(u) != "" then "&" else "?";
macro fconn(u) = if urlok(u) && urlfragment(u) != "" then "&" else "#";
macro conn(m, u) = if m == "fragment" then fconn(u) else qconn(u);

contract RespondSuccess for C18 {
  invariant pres: forall s:string . uvhas($u, s) <==> seen($k, s);
  invariant val: forall s:string . uvhas($u, s) ==> uvget($u, s) == get(params, s);
  clause redirect: mode != "form_post" ==> (some a:Redirect . a.code == 302 && a.url == uri ++ conn(mode, uri) ++ uencmap(params));
  clause once: all a:Redirect . mode != "form_post" && (all b:Redirect . a == b) && (all b:WriteHeader|Write . false);
  clause form: mode == "form_post" ==> (some a:WriteHeader . a.code == 200) && (all a:WriteHeader . all b:WriteHeader . a == b) && (some a:Write . true) && (all a:Write . all b:Write . a == b);
  cover query: some a:Redirect . mode == "query" && has(params, "code");
}
contract RespondError for C18 {
  clause redirect: mode != "form_post" ==> (some a:Redirect . a.code == 302 &&
     a.url == uri ++ conn(mode, uri) ++ uenc("error", true, typ, "error_description", desc != "", desc, "state", state != "", state));
  clause once: all a:Redirect . mode != "form_post" && (all b:Redirect . a == b) && (all b:WriteHeader|Write . false);
  clause form: mode == "form_post" ==> (some a:WriteHeader . a.code == 200) && (all a:WriteHeader . all b:WriteHeader . a == b) && (some a:Write . true) && (all a:Write . all b:Write . a == b);
  cover query: some a:Redirect . mode == "query" && state != "";
}

macro formhead(u) = "<html><head><title>Submit This Form</title></head><body onload=\"javascript:document.forms[0].submit()\"><form method=\"post\" action=\"" ++ htmlesc(u) ++ "\">";
macro fields(k) = rowsat(k, "<input type=\"hidden\" name=\"", "\" value=\"", "\" />");
macro formtail = "</form></body></html>";
macro uncached = all a:WriteHeader . a.code == 200 && a.header("Cache-Control") == "no-cache, no-store" && a.header("Pragma") == "no-cache" && a.header("Content-Type") == "text/html; charset=UTF-8";

contract RespondForm for C18 {
  invariant rows: $s == formhead(uri) ++ fields($k);
  clause page: some a:Write . a.body == formhead(uri) ++ fields(card) ++ formtail;
  clause fields: forall s:string . (iterhas(s) <==> has(params, s)) && (has(params, s) ==> iterget(s) == get(params, s));
  clause once: (all a:Redirect . false) && (all a:Write . all b:Write . a == b) && (all a:WriteHeader . all b:WriteHeader . a == b) && (some a:WriteHeader . true);
  clause uncached: uncached;
}
contract RespondFormError for C18 {
  invariant rows: $s == formhead(uri) ++ fields($k);
  clause page: some a:Write . a.body == formhead(uri) ++ fields(card) ++ formtail;
  clause fields: forall s:string . iterhas(s) <==> s == "error" || s == "error_description" && desc != "" || s == "state" && state != "";
  clause values: iterget("error") == typ && (desc != "" ==> iterget("error_description") == desc) && (state != "" ==> iterget("state") == state);
  clause once: (all a:Redirect . false) && (all a:Write . all b:Write . a == b) && (all a:WriteHeader . all b:WriteHeader . a == b) && (some a:WriteHeader . true);
  clause uncached: uncached;
}
func authorization.ResponseParamType.Connector(t, u) for C18 {
  returns if t == 1 then fconn(u) else qconn(u);
}

# what the handler of a mode sends goes to the given URI, in the place the mode names
contract RespondSuccess for C12 {
  clause to: all a:Redirect . hasprefix(a.url, uri) && (all b:Write . false);
  cover redirects: some a:Redirect . true;
}
contract RespondError for C12 {
  clause to: all a:Redirect . hasprefix(a.url, uri) && (all b:Write . false);
  cover redirects: some a:Redirect . true;
}
contract RespondSuccess for C14 {
  clause form: mode == "form_post" ==> (all a:Redirect . false) && (some b:Write . true);
  clause fragment: mode == "fragment" ==> (all a:Redirect . a.url == uri ++ fconn(uri) ++ uencmap(params)) && (some a:Redirect . true);
  clause query: mode == "query" ==> (all a:Redirect . a.url == uri ++ qconn(uri) ++ uencmap(params)) && (some a:Redirect . true);
  invariant pres: forall s:string . uvhas($u, s) <==> seen($k, s);
  invariant val: forall s:string . uvhas($u, s) ==> uvget($u, s) == get(params, s);
  cover redirects: some a:Redirect . mode == "fragment";
}
contract RespondSuccess for C17 {
  invariant pres: forall s:string . uvhas($u, s) <==> seen($k, s);
  invariant val: forall s:string . uvhas($u, s) ==> uvget($u, s) == get(params, s);
  clause redirect: mode != "form_post" ==> (some a:Redirect . a.url == uri ++ conn(mode, uri) ++ uencmap(params));
  cover query: some a:Redirect . mode == "query" && has(params, "code");
}
contract RespondError for C17 {
  clause redirect: mode != "form_post" ==> (some a:Redirect . a.url == uri ++ conn(mode, uri) ++ uenc("error", true, typ, "error_description", desc != "", desc, "state", state != "", state));
  cover query: some a:Redirect . mode == "query" && state != "";
}
contract RespondForm for C12 {
  invariant head: hasprefix($s, formhead(uri));
  clause to: (all a:Redirect . false) && (all a:Write . hasprefix(a.body, formhead(uri)));
}
contract RespondFormError for C12 {
  invariant head: hasprefix($s, formhead(uri));
  clause to: (all a:Redirect . false) && (all a:Write . hasprefix(a.body, formhead(uri)));
}
contract RespondError for C14 {
  clause form: mode == "form_post" ==> (all a:Redirect . false) && (some b:Write . true);
  clause query: mode == "query" ==> (some a:Redirect . true) && (all a:Redirect . a.url == uri ++ qconn(uri) ++ uenc("error", true, typ, "error_description", desc != "", desc, "state", state != "", state));
  clause fragment: mode == "fragment" ==> (some a:Redirect . true) && (all a:Redirect . a.url == uri ++ fconn(uri) ++ uenc("error", true, typ, "error_description", desc != "", desc, "state", state != "", state));
  cover redirects: some a:Redirect . mode == "fragment";
}
contract RespondForm for C17 {
  invariant rows: $s == formhead(uri) ++ fields($k);
  clause page: some a:Write . a.body == formhead(uri) ++ fields(card) ++ formtail;
  clause fields: forall s:string . (iterhas(s) <==> has(params, s)) && (has(params, s) ==> iterget(s) == get(params, s));
}
contract RespondFormError for C17 {
  invariant rows: $s == formhead(uri) ++ fields($k);
  clause page: some a:Write . a.body == formhead(uri) ++ fields(card) ++ formtail;
  clause fields: forall s:string . iterhas(s) <==> s == "error" || s == "error_description" && desc != "" || s == "state" && state != "";
  clause values: iterget("error") == typ && (desc != "" ==> iterget("error_description") == desc) && (state != "" ==> iterget("state") == state);
}
