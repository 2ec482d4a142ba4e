# Scope values are space-delimited lists of tokens (RFC 6749 section 3.3).

func scope.Include(scopes, targetScope) for C21 {
  flag use;
  invariant notyet: !intokn(scopes, targetScope, $k);
  invariant sofar: $b <==> intokn(scopes, targetScope, $k);
  invariant keys: forall s:string . mem($m, s) <==> intokn(scopes, s, $k);
  returns intok(scopes, targetScope);
}

func scope.IncludeAll(scopes, targetScopes) for C21 {
  flag use;
  invariant keys: forall s:string . mem($m, s) <==> intokn(scopes, s, $k);
  invariant sofar: forall i in 0:$k . intok(scopes, at(targetScopes, i));
  ensures verdict: ret0 <==> (forall i in 0:len(targetScopes) . intok(scopes, at(targetScopes, i)));
  ensures witness: !ret0 ==> (exists i in 0:len(targetScopes) . at(targetScopes, i) == ret1 && !intok(scopes, ret1));
  ensures none: ret0 ==> ret1 == "";
}

func scope.Remove(scopes, targetScope) for C21 {
  flag use;
  invariant acc: samelist($q, filtarr(scopes, $k, targetScope), filtlen(scopes, $k, targetScope));
  returns removetok(scopes, targetScope);
}

func scope.Sort(origin) for C21 {
  flag use;
  returns sorttok(origin);
}

func scope.Same(scope1, scope2) for C21 {
  flag use;
  returns sorttok(scope1) == sorttok(scope2);
}
func scope.IncludeOpenID(scopes) for C21 { returns intok(scopes, "openid"); }
func scope.IncludeOfflineAccess(scopes) for C21 { returns intok(scopes, "offline_access"); }
func scope.RemoveOpenID(scopes) for C21 { returns removetok(scopes, "openid"); }
func scope.RemoveOfflineAccess(scopes) for C21 { returns removetok(scopes, "offline_access"); }
