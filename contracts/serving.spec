# ---- no panic while serving --------------------------------------------------------
# Every run-time check on every path of these roots is an obligation: nil
# dereference, index and slice bounds, type assertion, nil map, explicit panic.
contract Token for C25 { requires h1.Func != nil && h2.Func != nil; cover serves: some a:WriteHeader . true; }
contract TokenDefault for C25 { requires h1.Func != nil; cover serves: some a:WriteHeader . true; }
contract GrantCode for C25 { cover serves: err == nil; }
contract GrantPassword for C25 { cover serves: err == nil; }
contract GrantClient for C25 { cover serves: err == nil; }
contract GrantRefresh for C25 { cover serves: err == nil; }
contract GrantJWT for C25 { cover serves: err == nil; }
contract Protect for C25 { cover serves: ok; }
contract ProtectScopes for C25 { cover serves: ok; }
contract Authorize for C25 { cover serves: ok; }
contract Complete for C25 { cover serves: ok; }
contract Cancel for C25 { cover serves: ok; }
contract RespondSuccess for C25 { cover serves: some a:Redirect . true; }
contract RespondError for C25 { cover serves: some a:Redirect . true; }

# ---- shared state --------------------------------------------------------------------
# Every heap write of these roots after the end of configuration is an obligation:
# it goes to memory the request allocated or to the response.
contract Token for C26 { clause hdr: forall k:string . reqhdr2(k) == reqhdr(k); cover serves: some a:WriteHeader . true; }
contract TokenDefault for C26 { clause hdr: forall k:string . reqhdr2(k) == reqhdr(k); cover serves: some a:WriteHeader . true; }
contract GrantCode for C26 { clause hdr: forall k:string . reqhdr2(k) == reqhdr(k); cover serves: err == nil; }
contract GrantPassword for C26 { clause hdr: forall k:string . reqhdr2(k) == reqhdr(k); cover serves: err == nil; }
contract GrantClient for C26 { clause hdr: forall k:string . reqhdr2(k) == reqhdr(k); cover serves: err == nil; }
contract GrantRefresh for C26 { clause hdr: forall k:string . reqhdr2(k) == reqhdr(k); cover serves: err == nil; }
contract GrantJWT for C26 { clause hdr: forall k:string . reqhdr2(k) == reqhdr(k); cover serves: err == nil; }
macro identity(k) = k == "X-Oauth-User-Id" || k == "X-Oauth-Client-Id" || k == "X-Oauth-Scope";
contract Protect for C26 { clause hdr: forall k:string . !identity(canon(k)) ==> reqhdr2(k) == reqhdr(k); cover serves: ok; }
contract ProtectScopes for C26 { clause hdr: forall k:string . !identity(canon(k)) ==> reqhdr2(k) == reqhdr(k); cover serves: ok; }
contract Authorize for C26 { clause hdr: forall k:string . reqhdr2(k) == reqhdr(k); cover serves: ok; }
contract Complete for C26 { clause hdr: forall k:string . reqhdr2(k) == reqhdr(k); cover serves: ok; }
contract Cancel for C26 { clause hdr: forall k:string . reqhdr2(k) == reqhdr(k); cover serves: ok; }
contract RespondSuccess for C26 { clause hdr: forall k:string . reqhdr2(k) == reqhdr(k); cover serves: some a:Redirect . true; }
contract RespondError for C26 { clause hdr: forall k:string . reqhdr2(k) == reqhdr(k); cover serves: some a:Redirect . true; }

# ---- secrets stay out of the log -------------------------------------------------------
# Every log line of these roots is an obligation: its text, and whether it is written,
# are the same in a second run that differs only in the secrets (gover/leak.go).
contract Token for C27 { requires h1.Func != nil && h2.Func != nil; cover logs: some a:Log . true; }
contract TokenDefault for C27 { requires h1.Func != nil; cover logs: some a:Log . true; }
contract GrantCode for C27 { cover logs: some a:Log . true; }
contract GrantPassword for C27 { cover logs: some a:Log . true; }
contract GrantClient for C27 { cover logs: some a:Log . true; }
contract GrantRefresh for C27 { cover logs: some a:Log . true; }
contract GrantJWT for C27 { cover logs: some a:Log . true; }
contract Protect for C27 { cover logs: some a:Log . true; }
contract ProtectScopes for C27 { cover logs: some a:Log . true; }
contract Authorize for C27 { cover logs: some a:Log . true; }
contract Complete for C27 { cover logs: some a:Log . true; }
contract Cancel for C27 { cover logs: some a:Log . true; }
contract RespondSuccess for C27 { cover serves: some a:Redirect . true; }
contract RespondError for C27 { cover serves: some a:Redirect . true; }
# the endpoints' default logger is shared by all requests
contract LogUse for C26 { requires 0 <= level && level <= 4; cover prints: some a:Print . true; }
contract LogUsef for C26 { requires 0 <= level && level <= 4; cover prints: some a:Print . true; }
contract LogUse for C25 { requires 0 <= level && level <= 4; cover prints: some a:Print . true; }
contract LogUsef for C25 { requires 0 <= level && level <= 4; cover prints: some a:Print . true; }
