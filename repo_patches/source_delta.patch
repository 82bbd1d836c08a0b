From 704b83d55089ed1df5cfdef1a019b6bd5bcd9f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 1/7] fix: report expired tokens as inactive on introspection

---
 server.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/server.go b/server.go
index b926c76..a9e8dd5 100644
--- a/server.go
+++ b/server.go
@@ -553,13 +553,15 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
-		// set response
-		res.Active = true
-		res.Scope = accessToken.Scope
-		res.ClientID = accessToken.ClientID
-		res.Username = accessToken.Username
-		res.TokenType = AccessToken
-		res.ExpiresAt = accessToken.ExpiresAt.Unix()
+		// set response if not expired
+		if !accessToken.ExpiresAt.Before(time.Now()) {
+			res.Active = true
+			res.Scope = accessToken.Scope
+			res.ClientID = accessToken.ClientID
+			res.Username = accessToken.Username
+			res.TokenType = AccessToken
+			res.ExpiresAt = accessToken.ExpiresAt.Unix()
+		}
 	}
 
 	// check refresh token
@@ -570,13 +572,15 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
-		// set response
-		res.Active = true
-		res.Scope = refreshToken.Scope
-		res.ClientID = refreshToken.ClientID
-		res.Username = refreshToken.Username
-		res.TokenType = RefreshToken
-		res.ExpiresAt = refreshToken.ExpiresAt.Unix()
+		// set response if not expired
+		if !refreshToken.ExpiresAt.Before(time.Now()) {
+			res.Active = true
+			res.Scope = refreshToken.Scope
+			res.ClientID = refreshToken.ClientID
+			res.Username = refreshToken.Username
+			res.TokenType = RefreshToken
+			res.ExpiresAt = refreshToken.ExpiresAt.Unix()
+		}
 	}
 
 	// write response
-- 
2.43.0


From bf47058210068a671f2d02ebe4a858404fbdd469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 2/7] fix: keep the authorization code of refreshed tokens so a
 code replay revokes them

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index a9e8dd5..0e784e4 100644
--- a/server.go
+++ b/server.go
@@ -437,7 +437,7 @@ func (s *Server) handleRefreshTokenGrant(w http.ResponseWriter, rq *TokenRequest
 	}
 
 	// issue tokens
-	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, "")
+	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
 
 	// delete used refresh token
 	delete(s.RefreshTokens, refreshToken.SignatureString())
-- 
2.43.0


From 66f161cef5fd8222f28850de99d2e20fc751b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 3/7] fix: encode redirect fragment parameters only once

---
 oauth2.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/oauth2.go b/oauth2.go
index ce4e4f3..3dbecca 100644
--- a/oauth2.go
+++ b/oauth2.go
@@ -96,6 +96,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 	}
 
 	// add params to fragment if requested
+	var fragment string
 	if useFragment {
 		// prepare fragment
 		f := make(url.Values)
@@ -106,7 +107,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		}
 
 		// encode fragment
-		redirectURI.Fragment = f.Encode()
+		fragment = f.Encode()
 	} else {
 		// get current query
 		q := redirectURI.Query()
@@ -120,8 +121,15 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		redirectURI.RawQuery = q.Encode()
 	}
 
+	// prepare location - the fragment is already encoded and must not be
+	// escaped again
+	location := redirectURI.String()
+	if fragment != "" {
+		location += "#" + fragment
+	}
+
 	// set location
-	w.Header().Add("Location", redirectURI.String())
+	w.Header().Add("Location", location)
 
 	// prevent caching
 	w.Header().Set("Cache-Control", "no-store")
-- 
2.43.0


From 291c3e27f34f300555be00345750ce107e6db876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 4/7] fix: reject redirect URIs that include a fragment

---
 authorization.go | 5 +++--
 token.go         | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/authorization.go b/authorization.go
index 28e012f..f8e7850 100644
--- a/authorization.go
+++ b/authorization.go
@@ -3,6 +3,7 @@ package oauth2
 import (
 	"net/http"
 	"net/url"
+	"strings"
 )
 
 // A AuthorizationRequest is typically returned by ParseAuthorizationRequest and
@@ -55,8 +56,8 @@ func ParseAuthorizationRequest(r *http.Request) (*AuthorizationRequest, error) {
 	}
 
 	// parse redirect uri
-	redirectURI, err := url.ParseRequestURI(redirectURIString)
-	if err != nil || redirectURI.Fragment != "" {
+	_, err = url.ParseRequestURI(redirectURIString)
+	if err != nil || strings.Contains(redirectURIString, "#") {
 		return nil, InvalidRequest("invalid redirect URI")
 	}
 
diff --git a/token.go b/token.go
index f0a4db9..140ea5f 100644
--- a/token.go
+++ b/token.go
@@ -79,8 +79,8 @@ func ParseTokenRequest(r *http.Request) (*TokenRequest, error) {
 
 	// validate redirect uri if present
 	if redirectURIString != "" {
-		redirectURI, err := url.ParseRequestURI(redirectURIString)
-		if err != nil || redirectURI.Fragment != "" {
+		_, err := url.ParseRequestURI(redirectURIString)
+		if err != nil || strings.Contains(redirectURIString, "#") {
 			return nil, InvalidRequest("invalid redirect URI")
 		}
 	}
-- 
2.43.0


From 991315440ceaa5128323ac7d62f79baa5d9b8507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 5/7] fix: conformance suite decoded fragment parameters twice

---
 oauth2test/utils.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oauth2test/utils.go b/oauth2test/utils.go
index ca1fe9e..838b8fd 100644
--- a/oauth2test/utils.go
+++ b/oauth2test/utils.go
@@ -59,12 +59,14 @@ func jsonFieldFloat(r *httptest.ResponseRecorder, field string) float64 {
 }
 
 func fragment(r *httptest.ResponseRecorder, key string) string {
-	u, err := url.Parse(r.Header().Get("Location"))
-	if err != nil {
-		panic(err)
+	// use the raw fragment as the parsed fragment is already unescaped and
+	// would be unescaped a second time below
+	parts := strings.SplitN(r.Header().Get("Location"), "#", 2)
+	if len(parts) != 2 {
+		return ""
 	}
 
-	f, err := url.ParseQuery(u.Fragment)
+	f, err := url.ParseQuery(parts[1])
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From c44113376619c98c7596ae95afeb2236d7d1cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 6/7] fix: keep redirect URI query parameters that contain
 semicolons

---
 oauth2.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/oauth2.go b/oauth2.go
index 3dbecca..0a23fac 100644
--- a/oauth2.go
+++ b/oauth2.go
@@ -110,7 +110,14 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		fragment = f.Encode()
 	} else {
 		// get current query
-		q := redirectURI.Query()
+		q, err := url.ParseQuery(redirectURI.RawQuery)
+
+		// keep a query that cannot be decoded completely as it is
+		prefix := ""
+		if err != nil {
+			q = make(url.Values)
+			prefix = redirectURI.RawQuery + "&"
+		}
 
 		// add parameters
 		for k, v := range params {
@@ -118,7 +125,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		}
 
 		// reset query
-		redirectURI.RawQuery = q.Encode()
+		redirectURI.RawQuery = prefix + q.Encode()
 	}
 
 	// prepare location - the fragment is already encoded and must not be
-- 
2.43.0


From e997d493f497d4fea8b755764eecd285782350a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 7/7] fix: reject null as a token or introspection response

---
 introspection.go | 9 +++++++--
 token.go         | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/introspection.go b/introspection.go
index 7497713..f3852e1 100644
--- a/introspection.go
+++ b/introspection.go
@@ -164,11 +164,16 @@ func ParseIntrospectionResponse(res *http.Response, limit int64) (*Introspection
 	}
 
 	// decode introspection response
-	var irs IntrospectionResponse
+	var irs *IntrospectionResponse
 	err = json.Unmarshal(data, &irs)
 	if err != nil {
 		return nil, err
 	}
 
-	return &irs, nil
+	// check response
+	if irs == nil {
+		return nil, fmt.Errorf("missing introspection response")
+	}
+
+	return irs, nil
 }
diff --git a/token.go b/token.go
index 140ea5f..4487581 100644
--- a/token.go
+++ b/token.go
@@ -274,11 +274,16 @@ func ParseTokenResponse(res *http.Response, limit int64) (*TokenResponse, error)
 	}
 
 	// decode token response
-	var trs TokenResponse
+	var trs *TokenResponse
 	err = json.Unmarshal(data, &trs)
 	if err != nil {
 		return nil, err
 	}
 
-	return &trs, nil
+	// check response
+	if trs == nil {
+		return nil, fmt.Errorf("missing token response")
+	}
+
+	return trs, nil
 }
-- 
2.43.0

