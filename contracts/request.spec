# ---- authorization requests between two HTTP requests ----------------------------
contract RoundTrip for C24 {
  requires req.Flow != nil ==> 0 <= req.Flow.Type && req.Flow.Type <= 3;
  clause client: out.ClientId == req.ClientId;
  clause scope: out.Scope == req.Scope;
  clause uri: out.RedirectURI == req.RedirectURI;
  clause mode: out.ResponseMode == req.ResponseMode;
  clause state: out.State == req.State;
  clause verifier: out.CodeVerifier == req.CodeVerifier;
  clause nonce: out.Nonce == req.Nonce;
  clause display: out.Display == req.Display;
  clause prompts: out.Prompt == req.Prompt;
  clause age: out.MaxAge == req.MaxAge;
  clause locale: out.UILocale == req.UILocale;
  clause idhint: out.IdTokenHint == req.IdTokenHint;
  clause loginhint: out.LoginHint == req.LoginHint;
  clause flow: (out.Flow == nil <==> req.Flow == nil) && (req.Flow != nil ==> out.Flow.Type == req.Flow.Type);
  clause requires: req.Flow != nil ==> (out.Flow.RequireAccessToken <==> req.Flow.RequireAccessToken) && (out.Flow.RequireIdToken <==> req.Flow.RequireIdToken);
  cover full: out.Flow != nil && out.Flow.Type == 2 && out.Flow.RequireIdToken && out.State != "";
}
contract ToSession for C24 {
  clause given: sess.Code == code && sess.ExpiresIn == expiresIn && sess.AuthTime == authTime;
  clause copied: sess.RedirectURI == req.RedirectURI && sess.Nonce == req.Nonce && sess.CodeVerifier == req.CodeVerifier;
}
