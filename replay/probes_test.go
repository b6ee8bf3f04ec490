package verifreplay

// kitProbes lists, per conformance test, the requests that its contract demands and
// the answers a conforming server gives.
var kitProbes = map[string][]string{
	"ProtectedResourceTest": {
		"GET /api/protected [Bearer ExpiredToken]  -> 401",
		"GET /api/protected [Bearer InsufficientToken]  -> 403",
		"GET /api/protected [Bearer UnknownToken]  -> 401",
		"GET /api/protected [Bearer invalid]  -> 401",
		"GET /api/protected []  -> 401",
		"GET /api/protected [invalid]  -> 400",
	},
	"TokenEndpointTest": {
		"POST /oauth2/token []  -> 400 error=invalid_request",
		"POST /oauth2/token [client1:foo] grant_type=invalid -> 400 error=invalid_request",
		"POST /oauth2/token [unknown:] grant_type=password -> 401 error=invalid_client",
	},
	"AuthorizationEndpointTest": {
		"GET /oauth2/authorize [client1:] client_id=client1&redirect_uri=http://example.com/callback1&response_type=token -> 200",
		"POST /oauth2/authorize []  -> 400 error=invalid_request",
		"POST /oauth2/authorize [] client_id=client1&redirect_uri=http://invalid.com&response_type=code -> 400 error=invalid_request",
		"POST /oauth2/authorize [] client_id=invalid&redirect_uri=http://example.com/callback1&response_type=code -> 401 error=invalid_client",
		"POST /oauth2/authorize [client1:] client_id=client1&redirect_uri=http://example.com/callback1&response_type=invalid -> 400 error=invalid_request",
	},
	"PasswordGrantTest": {
		"GET /api/protected [Bearer access_token(password)]  -> 200",
		"GET /api/protected [Bearer access_token(password)]  -> 401",
		"GET /api/protected [Bearer access_token(refresh_tokenrefresh_token(password))]  -> 200",
		"GET /api/protected [Bearer access_token(refresh_tokenrefresh_token(password))]  -> 401",
		"POST /oauth2/introspect [client1:foo] token=access_token(password)&token_type_hint=access_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=access_token(password)&token_type_hint=access_token -> 200 active=true token_type=access_token",
		"POST /oauth2/introspect [client1:foo] token=access_token(refresh_tokenrefresh_token(password))&token_type_hint=access_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=access_token(refresh_tokenrefresh_token(password))&token_type_hint=access_token -> 200 active=true token_type=access_token",
		"POST /oauth2/introspect [client1:foo] token=refresh_token(password)&token_type_hint=refresh_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=refresh_token(password)&token_type_hint=refresh_token -> 200 active=true token_type=refresh_token",
		"POST /oauth2/introspect [client1:foo] token=refresh_token(refresh_tokenrefresh_token(password))&token_type_hint=refresh_token -> 200 active=false",
		"POST /oauth2/revoke [client1:foo] token=access_token(password)&token_type_hint=access_token -> 200",
		"POST /oauth2/revoke [client1:foo] token=access_token(refresh_tokenrefresh_token(password))&token_type_hint=access_token -> 200",
		"POST /oauth2/revoke [client1:foo] token=refresh_token(refresh_tokenrefresh_token(password))&token_type_hint=refresh_token -> 200",
		"POST /oauth2/token [client1:foo] grant_type=password&password=foo&scope=baz&username=user1 -> 400 error=invalid_scope",
		"POST /oauth2/token [client1:foo] grant_type=password&password=foo&scope=foo bar baz&username=user1 -> 400 error=invalid_scope",
		"POST /oauth2/token [client1:foo] grant_type=password&password=foo&scope=foo bar&username=invalid -> 403 error=access_denied",
		"POST /oauth2/token [client1:foo] grant_type=password&password=foo&scope=foo bar&username=user1 -> 200 token_type=bearer",
		"POST /oauth2/token [client1:foo] grant_type=password&password=invalid&scope=foo bar&username=user1 -> 403 error=access_denied",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=refresh_token(password) -> 200 token_type=bearer",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=refresh_token(password) -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=refresh_token(refresh_tokenrefresh_token(password)) -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:invalid] grant_type=password&password=foo&scope=foo bar&username=user1 -> 401 error=invalid_client",
	},
	"ClientCredentialsGrantTest": {
		"GET /api/protected [Bearer access_token(client_credentials)]  -> 200",
		"GET /api/protected [Bearer access_token(client_credentials)]  -> 401",
		"GET /api/protected [Bearer access_token(refresh_tokenrefresh_token(client_credentials))]  -> 200",
		"GET /api/protected [Bearer access_token(refresh_tokenrefresh_token(client_credentials))]  -> 401",
		"POST /oauth2/introspect [client1:foo] token=access_token(client_credentials)&token_type_hint=access_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=access_token(client_credentials)&token_type_hint=access_token -> 200 active=true token_type=access_token",
		"POST /oauth2/introspect [client1:foo] token=access_token(refresh_tokenrefresh_token(client_credentials))&token_type_hint=access_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=access_token(refresh_tokenrefresh_token(client_credentials))&token_type_hint=access_token -> 200 active=true token_type=access_token",
		"POST /oauth2/introspect [client1:foo] token=refresh_token(client_credentials)&token_type_hint=refresh_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=refresh_token(client_credentials)&token_type_hint=refresh_token -> 200 active=true token_type=refresh_token",
		"POST /oauth2/introspect [client1:foo] token=refresh_token(refresh_tokenrefresh_token(client_credentials))&token_type_hint=refresh_token -> 200 active=false",
		"POST /oauth2/revoke [client1:foo] token=access_token(client_credentials)&token_type_hint=access_token -> 200",
		"POST /oauth2/revoke [client1:foo] token=access_token(refresh_tokenrefresh_token(client_credentials))&token_type_hint=access_token -> 200",
		"POST /oauth2/revoke [client1:foo] token=refresh_token(refresh_tokenrefresh_token(client_credentials))&token_type_hint=refresh_token -> 200",
		"POST /oauth2/token [client1:foo] grant_type=client_credentials&scope=baz -> 400 error=invalid_scope",
		"POST /oauth2/token [client1:foo] grant_type=client_credentials&scope=foo bar -> 200 token_type=bearer",
		"POST /oauth2/token [client1:foo] grant_type=client_credentials&scope=foo bar baz -> 400 error=invalid_scope",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=refresh_token(client_credentials) -> 200 token_type=bearer",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=refresh_token(client_credentials) -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=refresh_token(refresh_tokenrefresh_token(client_credentials)) -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:invalid] grant_type=client_credentials&scope=foo bar -> 401 error=invalid_client",
		"POST /oauth2/token [client2:] grant_type=client_credentials&scope=foo bar -> 401 error=invalid_client",
	},
	"ImplicitGrantTest": {
		"GET /api/protected [Bearer access_token(implicit)]  -> 200",
		"GET /api/protected [Bearer access_token(implicit)]  -> 401",
		"POST /oauth2/authorize [] client_id=client1&password=foo&redirect_uri=http://example.com/callback1&response_type=token&scope=baz&state=xyz&username=user1 -> 303",
		"POST /oauth2/authorize [] client_id=client1&password=foo&redirect_uri=http://example.com/callback1&response_type=token&scope=foo bar baz&state=xyz&username=user1 -> 303",
		"POST /oauth2/authorize [] client_id=client1&password=foo&redirect_uri=http://example.com/callback1&response_type=token&scope=foo bar&state=xyz&username=user1 -> 303",
		"POST /oauth2/authorize [] client_id=client1&password=invalid&redirect_uri=http://example.com/callback1&response_type=token&scope=foo bar&state=xyz&username=user1 -> 303",
		"POST /oauth2/authorize [] client_id=client1&redirect_uri=http://example.com/callback1&response_type=token&scope=foo bar&state=xyz -> 303",
		"POST /oauth2/introspect [client1:foo] token=access_token(implicit)&token_type_hint=access_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=access_token(implicit)&token_type_hint=access_token -> 200 active=true token_type=access_token",
		"POST /oauth2/revoke [client1:foo] token=access_token(implicit)&token_type_hint=access_token -> 200",
	},
	"AuthorizationCodeGrantTest": {
		"GET /api/protected [Bearer access_token(authorization_code#1)]  -> 200",
		"GET /api/protected [Bearer access_token(authorization_code#1)]  -> 401",
		"GET /api/protected [Bearer access_token(authorization_code#2)]  -> 401",
		"GET /api/protected [Bearer access_token(refresh_tokenrefresh_token(authorization_code#1))]  -> 200",
		"GET /api/protected [Bearer access_token(refresh_tokenrefresh_token(authorization_code#1))]  -> 401",
		"POST /oauth2/authorize [] client_id=client1&password=foo&redirect_uri=http://example.com/callback1&response_type=code&scope=baz&state=xyz&username=user1 -> 303",
		"POST /oauth2/authorize [] client_id=client1&password=foo&redirect_uri=http://example.com/callback1&response_type=code&scope=foo bar baz&state=xyz&username=user1 -> 303",
		"POST /oauth2/authorize [] client_id=client1&password=foo&redirect_uri=http://example.com/callback1&response_type=code&scope=foo bar&state=xyz&username=user1 -> 303",
		"POST /oauth2/authorize [] client_id=client1&password=invalid&redirect_uri=http://example.com/callback1&response_type=code&scope=foo bar&state=xyz&username=user1 -> 303",
		"POST /oauth2/authorize [] client_id=client1&redirect_uri=http://example.com/callback1&response_type=code&scope=foo bar&state=xyz -> 303",
		"POST /oauth2/introspect [client1:foo] token=access_token(authorization_code#1)&token_type_hint=access_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=access_token(authorization_code#1)&token_type_hint=access_token -> 200 active=true token_type=access_token",
		"POST /oauth2/introspect [client1:foo] token=access_token(refresh_tokenrefresh_token(authorization_code#1))&token_type_hint=access_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=access_token(refresh_tokenrefresh_token(authorization_code#1))&token_type_hint=access_token -> 200 active=true token_type=access_token",
		"POST /oauth2/introspect [client1:foo] token=refresh_token(authorization_code#1)&token_type_hint=refresh_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=refresh_token(authorization_code#1)&token_type_hint=refresh_token -> 200 active=true token_type=refresh_token",
		"POST /oauth2/introspect [client1:foo] token=refresh_token(refresh_tokenrefresh_token(authorization_code#1))&token_type_hint=refresh_token -> 200 active=false",
		"POST /oauth2/revoke [client1:foo] token=access_token(authorization_code#1)&token_type_hint=access_token -> 200",
		"POST /oauth2/revoke [client1:foo] token=access_token(refresh_tokenrefresh_token(authorization_code#1))&token_type_hint=access_token -> 200",
		"POST /oauth2/revoke [client1:foo] token=refresh_token(refresh_tokenrefresh_token(authorization_code#1))&token_type_hint=refresh_token -> 200",
		"POST /oauth2/token [client1:foo] code=#1&grant_type=authorization_code&redirect_uri=http://example.com/callback1&scope=foo bar -> 200 token_type=bearer",
		"POST /oauth2/token [client1:foo] code=#1&grant_type=authorization_code&redirect_uri=http://example.com/callback2&scope=foo bar -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:foo] code=#2&grant_type=authorization_code&redirect_uri=http://example.com/callback1&scope=foo bar -> 200 token_type=bearer",
		"POST /oauth2/token [client1:foo] code=#2&grant_type=authorization_code&redirect_uri=http://example.com/callback1&scope=foo bar -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:foo] code=ExpiredAuthorizationCode&grant_type=authorization_code&redirect_uri=http://example.com/callback1&scope=foo bar -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:foo] code=UnknownAuthorizationCode&grant_type=authorization_code&redirect_uri=http://example.com/callback1&scope=foo bar -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:foo] code=invalid&grant_type=authorization_code&redirect_uri=http://example.com/callback1&scope=foo bar -> 400 error=invalid_request",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=refresh_token(authorization_code#1) -> 200 token_type=bearer",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=refresh_token(authorization_code#1) -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=refresh_token(authorization_code#2) -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=refresh_token(refresh_tokenrefresh_token(authorization_code#1)) -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:invalid] code=invalid&grant_type=authorization_code&redirect_uri=http://example.com/callback1&scope=foo bar -> 401 error=invalid_client",
		"POST /oauth2/token [client2:] code=#1&grant_type=authorization_code&redirect_uri=http://example.com/callback1&scope=foo bar -> 400 error=invalid_grant",
	},
	"RefreshTokenGrantTest": {
		"GET /api/protected [Bearer access_token(refresh_tokenValidRefreshToken)]  -> 200",
		"GET /api/protected [Bearer access_token(refresh_tokenValidRefreshToken)]  -> 401",
		"POST /oauth2/introspect [client1:foo] token=ValidRefreshToken&token_type_hint=refresh_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=ValidRefreshToken&token_type_hint=refresh_token -> 200 active=true token_type=refresh_token",
		"POST /oauth2/introspect [client1:foo] token=access_token(refresh_tokenValidRefreshToken)&token_type_hint=access_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=access_token(refresh_tokenValidRefreshToken)&token_type_hint=access_token -> 200 active=true token_type=access_token",
		"POST /oauth2/introspect [client1:foo] token=refresh_token(refresh_tokenValidRefreshToken)&token_type_hint=refresh_token -> 200 active=false",
		"POST /oauth2/revoke [client1:foo] token=access_token(refresh_tokenValidRefreshToken)&token_type_hint=access_token -> 200",
		"POST /oauth2/revoke [client1:foo] token=refresh_token(refresh_tokenValidRefreshToken)&token_type_hint=refresh_token -> 200",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=ExpiredRefreshToken -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=UnknownRefreshToken -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=ValidRefreshToken -> 200 token_type=bearer",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=ValidRefreshToken -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=ValidRefreshToken&scope=foo bar baz -> 400 error=invalid_scope",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=invalid -> 400 error=invalid_request",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=refresh_token(refresh_tokenValidRefreshToken) -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:invalid] grant_type=refresh_token&refresh_token=ValidRefreshToken -> 401 error=invalid_client",
		"POST /oauth2/token [client2:] grant_type=refresh_token&refresh_token=ValidRefreshToken -> 400 error=invalid_grant",
	},
	"IntrospectionEndpointTest": {
		"GET /oauth2/introspect []  -> 400 error=invalid_request",
		"POST /oauth2/introspect []  -> 400 error=invalid_request",
		"POST /oauth2/introspect [] token=ValidToken -> 400 error=invalid_request",
		"POST /oauth2/introspect [client1:] token=ValidToken -> 401 error=invalid_client",
		"POST /oauth2/introspect [client1:foo]  -> 400 error=invalid_request",
		"POST /oauth2/introspect [client1:foo] token=UnknownToken -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=ValidToken&token_type_hint=access_token -> 200 active=true token_type=access_token",
		"POST /oauth2/introspect [client1:foo] token=ValidToken&token_type_hint=invalid -> 400 error=unsupported_token_type",
		"POST /oauth2/introspect [client1:foo] token=invalid -> 400 error=invalid_request",
		"POST /oauth2/introspect [client2:] token=ValidToken -> 401 error=invalid_client",
		"POST /oauth2/introspect [unknown:] token=ValidToken -> 401 error=invalid_client",
	},
	"RevocationEndpointTest": {
		"GET /api/protected [Bearer ValidToken]  -> 200",
		"GET /api/protected [Bearer ValidToken]  -> 401",
		"POST /oauth2/introspect [client1:foo] token=ValidToken&token_type_hint=access_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=ValidToken&token_type_hint=access_token -> 200 active=true token_type=access_token",
		"POST /oauth2/revoke []  -> 400 error=invalid_request",
		"POST /oauth2/revoke [] token=ValidToken -> 400 error=invalid_request",
		"POST /oauth2/revoke [client1:] token=ValidToken -> 401 error=invalid_client",
		"POST /oauth2/revoke [client1:foo]  -> 400 error=invalid_request",
		"POST /oauth2/revoke [client1:foo] token=UnknownToken -> 200",
		"POST /oauth2/revoke [client1:foo] token=ValidToken&token_type_hint=access_token -> 200",
		"POST /oauth2/revoke [client1:foo] token=ValidToken&token_type_hint=invalid -> 400 error=unsupported_token_type",
		"POST /oauth2/revoke [client1:foo] token=invalid -> 400 error=invalid_request",
		"POST /oauth2/revoke [client2:] token=ValidToken -> 401 error=invalid_client",
		"POST /oauth2/revoke [unknown:] token=ValidToken -> 401 error=invalid_client",
	},
	"AccessTokenTest": {
		"GET /api/protected [Bearer ValidToken]  -> 200",
		"GET /api/protected [Bearer ValidToken]  -> 401",
		"POST /oauth2/introspect [client1:foo] token=ValidToken&token_type_hint=access_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=ValidToken&token_type_hint=access_token -> 200 active=true token_type=access_token",
		"POST /oauth2/revoke [client1:foo] token=ValidToken&token_type_hint=access_token -> 200",
	},
	"RefreshTokenTest": {
		"GET /api/protected [Bearer access_token(refresh_tokenValidRefreshToken)]  -> 200",
		"GET /api/protected [Bearer access_token(refresh_tokenValidRefreshToken)]  -> 401",
		"POST /oauth2/introspect [client1:foo] token=ValidRefreshToken&token_type_hint=refresh_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=ValidRefreshToken&token_type_hint=refresh_token -> 200 active=true token_type=refresh_token",
		"POST /oauth2/introspect [client1:foo] token=access_token(refresh_tokenValidRefreshToken)&token_type_hint=access_token -> 200 active=false",
		"POST /oauth2/introspect [client1:foo] token=access_token(refresh_tokenValidRefreshToken)&token_type_hint=access_token -> 200 active=true token_type=access_token",
		"POST /oauth2/introspect [client1:foo] token=refresh_token(refresh_tokenValidRefreshToken)&token_type_hint=refresh_token -> 200 active=false",
		"POST /oauth2/revoke [client1:foo] token=access_token(refresh_tokenValidRefreshToken)&token_type_hint=access_token -> 200",
		"POST /oauth2/revoke [client1:foo] token=refresh_token(refresh_tokenValidRefreshToken)&token_type_hint=refresh_token -> 200",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=ValidRefreshToken -> 200 token_type=bearer",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=ValidRefreshToken -> 400 error=invalid_grant",
		"POST /oauth2/token [client1:foo] grant_type=refresh_token&refresh_token=refresh_token(refresh_tokenValidRefreshToken) -> 400 error=invalid_grant",
	},
}
