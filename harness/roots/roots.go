// Package roots drives the public API of goidc from arbitrary configurations and
// requests. It is compiled into the repository's module by an overlay: the prover
// executes it symbolically and the replay harness executes it concretely.
package roots

import (
	"net/http"
	"time"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/basic_auth"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/io"
	"github.com/lyokato/goidc/log"
	oer "github.com/lyokato/goidc/oauth_error"
)

// Serving marks the end of configuration: from here on everything that exists is
// shared between requests.
func Serving() {}

// Token serves one request at a token endpoint with two arbitrary grant handlers.
func Token(realm string, method goidc.CredentialAcceptanceMethod, assertions bool, errorURIOrNil oer.OAuthErrorURIBuilder,
	h1, h2 *grant.GrantHandler, logger log.Logger, clock io.TimeBuilder, sdi bridge.DataInterface, w http.ResponseWriter, r *http.Request) {
	te := goidc.NewTokenEndpoint(realm)
	te.SetLogger(logger)
	te.SetTimeBuilder(clock)
	te.SetErrorURIBuilder(errorURIOrNil)
	te.AcceptClientSecret(method)
	te.AcceptClientAssertion(assertions)
	te.Support(h1)
	te.Support(h2)
	h := te.Handler(sdi)
	Serving()
	h(w, r)
}

// TokenDefault is a token endpoint with the default credential policy and a fixed error URI.
func TokenDefault(realm, uri string, h1 *grant.GrantHandler, logger log.Logger, clock io.TimeBuilder,
	sdi bridge.DataInterface, w http.ResponseWriter, r *http.Request) {
	te := goidc.NewTokenEndpoint(realm)
	te.SetLogger(logger)
	te.SetTimeBuilder(clock)
	te.SetErrorURI(uri)
	te.Support(h1)
	h := te.Handler(sdi)
	Serving()
	h(w, r)
}

// Grant* run one of the grant handlers for an authenticated client.

func GrantCode(c bridge.Client, sdi bridge.DataInterface, logger log.Logger, now time.Time, r *http.Request) (typ string, res *grant.Response, err *oer.OAuthError) {
	g := grant.AuthorizationCode()
	Serving()
	res, err = g.Func(r, c, sdi, logger, now)
	return g.Type, res, err
}

func GrantPassword(c bridge.Client, sdi bridge.DataInterface, logger log.Logger, now time.Time, r *http.Request) (typ string, res *grant.Response, err *oer.OAuthError) {
	g := grant.Password()
	Serving()
	res, err = g.Func(r, c, sdi, logger, now)
	return g.Type, res, err
}

func GrantClient(c bridge.Client, sdi bridge.DataInterface, logger log.Logger, now time.Time, r *http.Request) (typ string, res *grant.Response, err *oer.OAuthError) {
	g := grant.ClientCredentials()
	Serving()
	res, err = g.Func(r, c, sdi, logger, now)
	return g.Type, res, err
}

func GrantRefresh(c bridge.Client, sdi bridge.DataInterface, logger log.Logger, now time.Time, r *http.Request) (typ string, res *grant.Response, err *oer.OAuthError) {
	g := grant.RefreshToken()
	Serving()
	res, err = g.Func(r, c, sdi, logger, now)
	return g.Type, res, err
}

func GrantJWT(c bridge.Client, sdi bridge.DataInterface, logger log.Logger, now time.Time, r *http.Request) (typ string, res *grant.Response, err *oer.OAuthError) {
	g := grant.JWT()
	Serving()
	res, err = g.Func(r, c, sdi, logger, now)
	return g.Type, res, err
}

// Protect validates one request at a protected resource.
func Protect(realm string, method goidc.CredentialAcceptanceMethod, errorURIOrNil oer.OAuthErrorURIBuilder,
	logger log.Logger, clock io.TimeBuilder, sdi bridge.DataInterface, w http.ResponseWriter, r *http.Request) (ok bool) {
	rp := goidc.NewResourceProtector(realm)
	rp.SetLogger(logger)
	rp.SetTimeBuilder(clock)
	rp.SetErrorURIBulder(errorURIOrNil)
	rp.AcceptAccessToken(method)
	Serving()
	return rp.Validate(w, r, sdi)
}

// ProtectScopes validates one request at protected resources with required scopes by path.
func ProtectScopes(realm string, scopes map[string][]string, method goidc.CredentialAcceptanceMethod, errorURIOrNil oer.OAuthErrorURIBuilder,
	logger log.Logger, clock io.TimeBuilder, sdi bridge.DataInterface, w http.ResponseWriter, r *http.Request) (ok bool) {
	rp := goidc.NewResourceProtector(realm)
	rp.SetLogger(logger)
	rp.SetTimeBuilder(clock)
	rp.SetErrorURIBulder(errorURIOrNil)
	rp.AcceptAccessToken(method)
	Serving()
	return rp.ValidateWithScopes(w, r, sdi, scopes)
}

// Authorize serves one authorization request.
func Authorize(policy *authorization.Policy, logger log.Logger, clock io.TimeBuilder, sdi bridge.DataInterface,
	cb bridge.AuthorizationCallbacks, w http.ResponseWriter, r *http.Request) (ok bool) {
	ae := goidc.NewAuthorizationEndpoint(sdi, policy)
	ae.SetLogger(logger)
	ae.SetTimeBuilder(clock)
	Serving()
	return ae.HandleRequest(w, r, cb)
}

// Complete finishes an authorization request after the user's consent.
func Complete(policy *authorization.Policy, logger log.Logger, clock io.TimeBuilder, sdi bridge.DataInterface,
	cb bridge.AuthorizationCallbacks, w http.ResponseWriter, r *http.Request) (ok bool) {
	ae := goidc.NewAuthorizationEndpoint(sdi, policy)
	ae.SetLogger(logger)
	ae.SetTimeBuilder(clock)
	Serving()
	return ae.CompleteRequest(w, r, cb)
}

// Cancel ends an authorization request after the user's refusal.
func Cancel(policy *authorization.Policy, logger log.Logger, clock io.TimeBuilder, sdi bridge.DataInterface,
	cb bridge.AuthorizationCallbacks, w http.ResponseWriter, r *http.Request) (ok bool) {
	ae := goidc.NewAuthorizationEndpoint(sdi, policy)
	ae.SetLogger(logger)
	ae.SetTimeBuilder(clock)
	Serving()
	return ae.CancelRequest(w, r, cb)
}

// RespondSuccess sends authorization response parameters to the client.
func RespondSuccess(mode, uri string, params map[string]string, w http.ResponseWriter, r *http.Request) {
	Serving()
	authorization.ResponseHandlerForMode(mode, w, r).Success(uri, params)
}

// RespondError sends an authorization error to the client.
func RespondError(mode, uri, typ, desc, state string, w http.ResponseWriter, r *http.Request) {
	Serving()
	authorization.ResponseHandlerForMode(mode, w, r).Error(uri, typ, desc, state)
}

// RespondForm sends authorization response parameters as a form.
func RespondForm(uri string, params map[string]string, w http.ResponseWriter, r *http.Request) {
	Serving()
	authorization.ResponseHandlerForMode("form_post", w, r).Success(uri, params)
}

// RespondFormError sends an authorization error as a form.
func RespondFormError(uri, typ, desc, state string, w http.ResponseWriter, r *http.Request) {
	Serving()
	authorization.ResponseHandlerForMode("form_post", w, r).Error(uri, typ, desc, state)
}

// RoundTrip encodes and decodes an authorization request.
func RoundTrip(req *authorization.Request) (out *authorization.Request) {
	return authorization.DecodeRequest(req.Encode())
}

// ToSession derives the stored code session from a request.
func ToSession(req *authorization.Request, code string, expiresIn, authTime int64) (sess *authorization.Session) {
	return req.ToSession(code, expiresIn, authTime)
}

// OAuthErr builds an error and renders it.
func OAuthErr(typ oer.OAuthErrorType, desc, uri, realm, state string) (code int, body []byte, header, query, text string) {
	e := oer.NewOAuthDetailedError(typ, desc, uri)
	return e.StatusCode(), e.JSON(), e.Header(realm), e.Query(state), e.Error()
}

// TokenBody renders a token response.
func TokenBody(res *grant.Response) (body []byte) { return res.JSON() }

// LogLine prints one message with the default logger.
func LogLine(min, level log.LogLevel, msg string) {
	l := log.NewDefaultLogger()
	log.SetLevelForDefaultLogger(min)
	switch level {
	case log.LogLevelDebug:
		l.Debug(msg)
	case log.LogLevelInfo:
		l.Info(msg)
	case log.LogLevelWarn:
		l.Warn(msg)
	case log.LogLevelError:
		l.Error(msg)
	case log.LogLevelFatal:
		l.Fatal(msg)
	}
}

// LogLinef prints one formatted message with the default logger.
func LogLinef(min, level log.LogLevel, format, arg string) {
	l := log.NewDefaultLogger()
	log.SetLevelForDefaultLogger(min)
	switch level {
	case log.LogLevelDebug:
		l.Debugf(format, arg)
	case log.LogLevelInfo:
		l.Infof(format, arg)
	case log.LogLevelWarn:
		l.Warnf(format, arg)
	case log.LogLevelError:
		l.Errorf(format, arg)
	case log.LogLevelFatal:
		l.Fatalf(format, arg)
	}
}

// LogFormat prints a format without arguments with the default logger.
func LogFormat(min, level log.LogLevel, format string) {
	l := log.NewDefaultLogger()
	log.SetLevelForDefaultLogger(min)
	switch level {
	case log.LogLevelDebug:
		l.Debugf(format)
	case log.LogLevelInfo:
		l.Infof(format)
	case log.LogLevelWarn:
		l.Warnf(format)
	case log.LogLevelError:
		l.Errorf(format)
	case log.LogLevelFatal:
		l.Fatalf(format)
	}
}

// LogUse prints one message with a default logger that is shared.
func LogUse(level log.LogLevel, msg string) {
	l := log.NewDefaultLogger()
	Serving()
	switch level {
	case log.LogLevelDebug:
		l.Debug(msg)
	case log.LogLevelInfo:
		l.Info(msg)
	case log.LogLevelWarn:
		l.Warn(msg)
	case log.LogLevelError:
		l.Error(msg)
	case log.LogLevelFatal:
		l.Fatal(msg)
	}
}

// LogUsef prints one formatted message with a default logger that is shared.
func LogUsef(level log.LogLevel, format, arg string) {
	l := log.NewDefaultLogger()
	Serving()
	switch level {
	case log.LogLevelDebug:
		l.Debugf(format, arg)
	case log.LogLevelInfo:
		l.Infof(format, arg)
	case log.LogLevelWarn:
		l.Warnf(format, arg)
	case log.LogLevelError:
		l.Errorf(format, arg)
	case log.LogLevelFatal:
		l.Fatalf(format, arg)
	}
}

// BasicRoundTrip reads back a Basic header built from a pair.
func BasicRoundTrip(uid, pass string, r *http.Request) (id, secret string, ok bool) {
	r.Header.Set("Authorization", basic_auth.Header(uid, pass))
	return basic_auth.FindClientCredential(r)
}
