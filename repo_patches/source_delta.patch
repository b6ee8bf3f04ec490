From 57a0dd087263f51ccd6835b5314fee6e119d3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 1/6] fix: keep built request values from sharing spare
 capacity

Adding to one entry of the returned url.Values overwrote the next entry.
---
 introspection.go |  4 ++--
 revocation.go    |  4 ++--
 token.go         | 14 +++++++-------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/introspection.go b/introspection.go
index 7497713..3995ade 100644
--- a/introspection.go
+++ b/introspection.go
@@ -111,12 +111,12 @@ func IntrospectionRequestValues(r IntrospectionRequest) url.Values {
 
 	// set token if available
 	if r.Token != "" {
-		values["token"] = slice[0:1]
+		values["token"] = slice[0:1:1]
 	}
 
 	// set token type hint if available
 	if len(r.TokenTypeHint) != 0 {
-		values["token_type_hint"] = slice[1:2]
+		values["token_type_hint"] = slice[1:2:2]
 	}
 
 	return values
diff --git a/revocation.go b/revocation.go
index f321679..ddee64e 100644
--- a/revocation.go
+++ b/revocation.go
@@ -66,12 +66,12 @@ func RevocationRequestValues(r RevocationRequest) url.Values {
 
 	// set token if available
 	if r.Token != "" {
-		values["token"] = slice[0:1]
+		values["token"] = slice[0:1:1]
 	}
 
 	// set token type hint if available
 	if len(r.TokenTypeHint) != 0 {
-		values["token_type_hint"] = slice[1:2]
+		values["token_type_hint"] = slice[1:2:2]
 	}
 
 	return values
diff --git a/token.go b/token.go
index f0a4db9..20ef292 100644
--- a/token.go
+++ b/token.go
@@ -196,37 +196,37 @@ func TokenRequestValues(r TokenRequest) url.Values {
 
 	// set grant type if available
 	if r.GrantType != "" {
-		values["grant_type"] = slice[0:1]
+		values["grant_type"] = slice[0:1:1]
 	}
 
 	// set scope if available
 	if len(r.Scope) != 0 {
-		values["scope"] = slice[1:2]
+		values["scope"] = slice[1:2:2]
 	}
 
 	// set username if available
 	if r.Username != "" {
-		values["username"] = slice[2:3]
+		values["username"] = slice[2:3:3]
 	}
 
 	// set password if available
 	if r.Password != "" {
-		values["password"] = slice[3:4]
+		values["password"] = slice[3:4:4]
 	}
 
 	// set refresh token if available
 	if r.RefreshToken != "" {
-		values["refresh_token"] = slice[4:5]
+		values["refresh_token"] = slice[4:5:5]
 	}
 
 	// set redirect uri if available
 	if r.RedirectURI != "" {
-		values["redirect_uri"] = slice[5:6]
+		values["redirect_uri"] = slice[5:6:6]
 	}
 
 	// set code if available
 	if r.Code != "" {
-		values["code"] = slice[6:7]
+		values["code"] = slice[6:7:7]
 	}
 
 	return values
-- 
2.43.0


From 8638e4b530b47d7a378f9becb4c3ed2b98354960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 2/6] fix: reject redirect URIs that carry a fragment

url.ParseRequestURI never sets Fragment, so the check never fired.
---
 authorization.go | 5 +++--
 token.go         | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/authorization.go b/authorization.go
index 28e012f..f8e7850 100644
--- a/authorization.go
+++ b/authorization.go
@@ -3,6 +3,7 @@ package oauth2
 import (
 	"net/http"
 	"net/url"
+	"strings"
 )
 
 // A AuthorizationRequest is typically returned by ParseAuthorizationRequest and
@@ -55,8 +56,8 @@ func ParseAuthorizationRequest(r *http.Request) (*AuthorizationRequest, error) {
 	}
 
 	// parse redirect uri
-	redirectURI, err := url.ParseRequestURI(redirectURIString)
-	if err != nil || redirectURI.Fragment != "" {
+	_, err = url.ParseRequestURI(redirectURIString)
+	if err != nil || strings.Contains(redirectURIString, "#") {
 		return nil, InvalidRequest("invalid redirect URI")
 	}
 
diff --git a/token.go b/token.go
index 20ef292..96bfe4f 100644
--- a/token.go
+++ b/token.go
@@ -79,8 +79,8 @@ func ParseTokenRequest(r *http.Request) (*TokenRequest, error) {
 
 	// validate redirect uri if present
 	if redirectURIString != "" {
-		redirectURI, err := url.ParseRequestURI(redirectURIString)
-		if err != nil || redirectURI.Fragment != "" {
+		_, err := url.ParseRequestURI(redirectURIString)
+		if err != nil || strings.Contains(redirectURIString, "#") {
 			return nil, InvalidRequest("invalid redirect URI")
 		}
 	}
-- 
2.43.0


From 663a67536d5a57d27aea03e911f92af86be448ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 3/6] fix: let refreshed tokens keep descending from their code

A replayed authorization code did not revoke tokens obtained by refreshing.
---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index b926c76..45bf0d2 100644
--- a/server.go
+++ b/server.go
@@ -437,7 +437,7 @@ func (s *Server) handleRefreshTokenGrant(w http.ResponseWriter, rq *TokenRequest
 	}
 
 	// issue tokens
-	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, "")
+	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
 
 	// delete used refresh token
 	delete(s.RefreshTokens, refreshToken.SignatureString())
-- 
2.43.0


From c39ac937707fcee4662e457079cc6ec0b00f5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 4/6] fix: report expired tokens as inactive in introspection

---
 server.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/server.go b/server.go
index 45bf0d2..0e784e4 100644
--- a/server.go
+++ b/server.go
@@ -553,13 +553,15 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
-		// set response
-		res.Active = true
-		res.Scope = accessToken.Scope
-		res.ClientID = accessToken.ClientID
-		res.Username = accessToken.Username
-		res.TokenType = AccessToken
-		res.ExpiresAt = accessToken.ExpiresAt.Unix()
+		// set response if not expired
+		if !accessToken.ExpiresAt.Before(time.Now()) {
+			res.Active = true
+			res.Scope = accessToken.Scope
+			res.ClientID = accessToken.ClientID
+			res.Username = accessToken.Username
+			res.TokenType = AccessToken
+			res.ExpiresAt = accessToken.ExpiresAt.Unix()
+		}
 	}
 
 	// check refresh token
@@ -570,13 +572,15 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
-		// set response
-		res.Active = true
-		res.Scope = refreshToken.Scope
-		res.ClientID = refreshToken.ClientID
-		res.Username = refreshToken.Username
-		res.TokenType = RefreshToken
-		res.ExpiresAt = refreshToken.ExpiresAt.Unix()
+		// set response if not expired
+		if !refreshToken.ExpiresAt.Before(time.Now()) {
+			res.Active = true
+			res.Scope = refreshToken.Scope
+			res.ClientID = refreshToken.ClientID
+			res.Username = refreshToken.Username
+			res.TokenType = RefreshToken
+			res.ExpiresAt = refreshToken.ExpiresAt.Unix()
+		}
 	}
 
 	// write response
-- 
2.43.0


From 18f640c90d0fd34c1e035abb5b654d9440238538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 5/6] fix: do not encode redirect fragments twice

url.URL.String escapes the already form-encoded fragment again.
---
 oauth2.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oauth2.go b/oauth2.go
index ce4e4f3..2daea43 100644
--- a/oauth2.go
+++ b/oauth2.go
@@ -95,6 +95,9 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		return err
 	}
 
+	// prepare fragment
+	var fragment string
+
 	// add params to fragment if requested
 	if useFragment {
 		// prepare fragment
@@ -106,7 +109,9 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		}
 
 		// encode fragment
-		redirectURI.Fragment = f.Encode()
+		if len(params) > 0 {
+			fragment = "#" + f.Encode()
+		}
 	} else {
 		// get current query
 		q := redirectURI.Query()
@@ -121,7 +126,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 	}
 
 	// set location
-	w.Header().Add("Location", redirectURI.String())
+	w.Header().Add("Location", redirectURI.String()+fragment)
 
 	// prevent caching
 	w.Header().Set("Cache-Control", "no-store")
-- 
2.43.0


From 2ae1d36f465f3bf465c436f385c7560b9a7f9489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 6/6] fix: report a missing or malformed challenge instead of
 crashing the conformance tests

---
 oauth2test/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oauth2test/utils.go b/oauth2test/utils.go
index ca1fe9e..480be16 100644
--- a/oauth2test/utils.go
+++ b/oauth2test/utils.go
@@ -84,11 +84,15 @@ func query(r *httptest.ResponseRecorder, key string) string {
 func auth(r *httptest.ResponseRecorder, key string) string {
 	header := r.Header().Get("WWW-Authenticate")
 	parts := strings.SplitN(header, " ", 2)
+	if len(parts) < 2 {
+		return ""
+	}
+
 	parts = strings.Split(parts[1], ", ")
 
 	for _, part := range parts {
 		values := strings.SplitN(part, "=", 2)
-		if values[0] != key {
+		if len(values) < 2 || values[0] != key {
 			continue
 		}
 		return strings.Trim(values[1], "\",")
-- 
2.43.0

