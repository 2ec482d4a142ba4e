# ---- log lines ------------------------------------------------------------------------
# The registered name of every event, in the order of their declaration.
macro evname(e) = if e == 0 then "authentication_failed" else if e == 1 then "code_challenge_failed" else if e == 2 then "unauthorized_grant_type" else if e == 3 then "auth_info_condition_mismatch" else if e == 4 then "auth_session_condition_mismatch" else if e == 5 then "scope_condition_mismatch" else if e == 6 then "refresh_token_condition_mismatch" else if e == 7 then "redirect_uri_mismatch" else if e == 8 then "assertion_condition_mismatch" else if e == 9 then "interface_unsupported" else if e == 10 then "interface_server_error" else if e == 11 then "interface_error" else if e == 12 then "invalid_scope" else if e == 13 then "invalid_display" else if e == 14 then "invalid_max_age" else if e == 15 then "invalid_response_type" else if e == 16 then "invalid_response_mode" else if e == 17 then "invalid_nonce" else if e == 18 then "invalid_prompt" else if e == 19 then "invalid_code_verifier" else if e == 20 then "access_token_granted" else if e == 21 then "invalid_http_method" else if e == 22 then "missing_param" else if e == 23 then "unsupported_grant_type" else if e == 24 then "unsupported_code_challenge_method" else if e == 25 then "no_credential" else if e == 26 then "no_enabled_client" else if e == 27 then "no_enabled_auth_info" else if e == 28 then "no_enabled_auth_session" else if e == 29 then "no_enabled_access_token" else if e == 30 then "no_enabled_user_id" else if e == 31 then "access_token_creation_failed" else if e == 32 then "access_token_refresh_failed" else if e == 33 then "disable_session_failed" else if e == 34 then "auth_info_creation_failed" else if e == 35 then "id_token_generation" else if e == 36 then "login_required" else "";
macro logtext(ep, realm, ev, params, msg) = "[goidc:" ++ ep ++ ":\x1b[1;34m" ++ realm ++ "\x1b[m:\x1b[36m" ++ evname(ev) ++ "\x1b[m] " ++ msg ++
  " \x1b[1;31m" ++ jsonmap(params) ++ "\x1b[m";
func log.AuthorizationEndpointLog(path, ev, params, msg) for C29 { returns logtext("authorization_endpoint", path, ev, params, msg); }
func log.TokenEndpointLog(path, ev, params, msg) for C29 { returns logtext("token_endpoint", path, ev, params, msg); }
func log.ProtectedResourceLog(path, ev, params, msg) for C29 { returns logtext("protected_resource", path, ev, params, msg); }
func log.EndpointLog(endpoint, path, ev, params, msg) for C29 { returns logtext(endpoint, path, ev, params, msg); }

# ---- the default logger
macro label(l) = if l == 0 then "\x1b[37m[DEBUG]\x1b[m " else if l == 1 then "\x1b[32m[INFO]\x1b[m " else if l == 2 then "\x1b[35m[WARN]\x1b[m " else
  if l == 3 then "\x1b[33m[ERROR]\x1b[m " else "\x1b[31m[FATAL]\x1b[m ";
contract LogLine for C29 {
  requires min <= 4 && 0 <= level && level <= 4;
  clause when: (some a:Print . true) <==> level >= min;
  clause once: all a:Print . all b:Print . a == b;
  clause text: all a:Print . a.text == label(level) ++ msg ++ "\n";
  cover prints: some a:Print . true;
  cover silent: !(some a:Print . true);
}
contract LogLinef for C29 {
  requires min <= 4 && 0 <= level && level <= 4;
  clause when: (some a:Print . true) <==> level >= min;
  clause once: all a:Print . all b:Print . a == b;
  clause text: all a:Print . a.text == sprintf(label(level) ++ format, arg) ++ "\n" || a.text == sprintf(label(level) ++ format ++ "\n", arg);
  cover prints: some a:Print . true;
  cover silent: !(some a:Print . true);
}
contract LogFormat for C29 {
  requires min <= 4 && 0 <= level && level <= 4;
  clause when: (some a:Print . true) <==> level >= min;
  clause once: all a:Print . all b:Print . a == b;
  clause text: all a:Print . a.text == sprintf(label(level) ++ format) ++ "\n" || a.text == sprintf(label(level) ++ format ++ "\n");
  cover prints: some a:Print . true;
  cover silent: !(some a:Print . true);
}

# ---- every endpoint's lines name it -----------------------------------------------------
contract Token for C29 { requires h1.Func != nil && h2.Func != nil; clause names: all a:Log . hasprefix(a.text, "[goidc:token_endpoint:\x1b[1;34m"); clause direct: all a:Print . false; cover logs: some a:Log . true; }
contract TokenDefault for C29 { requires h1.Func != nil; clause names: all a:Log . hasprefix(a.text, "[goidc:token_endpoint:\x1b[1;34m"); clause direct: all a:Print . false; cover logs: some a:Log . true; }
contract GrantCode for C29 { clause names: all a:Log . hasprefix(a.text, "[goidc:token_endpoint:\x1b[1;34mauthorization_code\x1b[m:"); clause direct: all a:Print . false; cover logs: some a:Log . true; }
contract GrantPassword for C29 { clause names: all a:Log . hasprefix(a.text, "[goidc:token_endpoint:\x1b[1;34mpassword\x1b[m:"); clause direct: all a:Print . false; cover logs: some a:Log . true; }
contract GrantClient for C29 { clause names: all a:Log . hasprefix(a.text, "[goidc:token_endpoint:\x1b[1;34mclient_credentials\x1b[m:"); clause direct: all a:Print . false; cover logs: some a:Log . true; }
contract GrantRefresh for C29 { clause names: all a:Log . hasprefix(a.text, "[goidc:token_endpoint:\x1b[1;34mrefresh_token\x1b[m:"); clause direct: all a:Print . false; cover logs: some a:Log . true; }
contract GrantJWT for C29 { clause names: all a:Log . hasprefix(a.text, "[goidc:token_endpoint:\x1b[1;34m" ++ typ ++ "\x1b[m:"); clause direct: all a:Print . false; cover logs: some a:Log . true; }
contract Protect for C29 { clause names: all a:Log . hasprefix(a.text, "[goidc:protected_resource:\x1b[1;34m" ++ r.URL.Path ++ "\x1b[m:"); clause direct: all a:Print . false; cover logs: some a:Log . true; }
contract ProtectScopes for C29 { clause names: all a:Log . hasprefix(a.text, "[goidc:protected_resource:\x1b[1;34m" ++ r.URL.Path ++ "\x1b[m:"); clause direct: all a:Print . false; cover logs: some a:Log . true; }
contract Authorize for C29 { clause names: all a:Log . hasprefix(a.text, "[goidc:authorization_endpoint:\x1b[1;34m" ++ r.URL.Path ++ "\x1b[m:"); clause direct: all a:Print . false; cover logs: some a:Log . true; }
contract Complete for C29 { clause names: all a:Log . hasprefix(a.text, "[goidc:authorization_endpoint:\x1b[1;34m" ++ r.URL.Path ++ "\x1b[m:"); clause direct: all a:Print . false; cover logs: some a:Log . true; }
contract Cancel for C29 { clause names: all a:Log . hasprefix(a.text, "[goidc:authorization_endpoint:\x1b[1;34m" ++ r.URL.Path ++ "\x1b[m:"); clause direct: all a:Print . false; cover logs: some a:Log . true; }
