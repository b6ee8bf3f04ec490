package oauth2

import "net/http"

// Lemma functions: compositions of functions of this package whose contracts
// (contracts/lemmas.gvc) state how they fit together. This file is laid over the
// package when it is verified; nothing in it is compiled into the library.

func verifGenerated(secret []byte, length int) (*HS256Token, *HS256Token, error) {
	token, err := GenerateHS256Token(secret, length)
	if err != nil {
		return nil, nil, err
	}

	back, err := ParseHS256Token(secret, token.String())

	return token, back, err
}

func verifReparsed(str string) (Scope, Scope) {
	scope := ParseScope(str)

	return scope, ParseScope(scope.String())
}

func verifTokenRequest(uri string, t TokenRequest) (*TokenRequest, error) {
	r, err := BuildTokenRequest(uri, t)
	if err != nil {
		return nil, err
	}

	return ParseTokenRequest(r)
}

func verifIntrospectionRequest(uri string, t IntrospectionRequest) (*IntrospectionRequest, error) {
	r, err := BuildIntrospectionRequest(uri, t)
	if err != nil {
		return nil, err
	}

	return ParseIntrospectionRequest(r)
}

func verifRevocationRequest(uri string, t RevocationRequest) (*RevocationRequest, error) {
	r, err := BuildRevocationRequest(uri, t)
	if err != nil {
		return nil, err
	}

	return ParseRevocationRequest(r)
}

// verifMark names the current state, for use in contracts.
func verifMark(i int) {}

// verifArrive stands for the arrival of any request (assumed contract).
func verifArrive(s *Server) (http.ResponseWriter, *http.Request) { panic("assumed") }

// verifHistory serves any number of arbitrary requests; some may fail for want
// of randomness.
func verifHistory(s *Server, n int, k string) {
	if n <= 0 {
		return
	}
	verifHistory(s, n-1, k)
	verifAny(s, k)
}

// verifAny serves one arbitrary request and survives its failure, as net/http does.
func verifAny(s *Server, k string) {
	defer func() { recover() }()
	w, r := verifArrive(s)
	s.ServeHTTP(w, r)
}

// verifBefore and after: one request, any history, another request.
func verifBefore(s *Server, n int, k string) (w1, w2 http.ResponseWriter, r1, r2 *http.Request) {
	w1, r1 = verifArrive(s)
	verifMark(1)
	s.ServeHTTP(w1, r1)
	verifMark(2)
	verifHistory(s, n, k)
	w2, r2 = verifArrive(s)
	verifMark(3)
	s.ServeHTTP(w2, r2)
	return
}

// verifAccess: one request, any history, then access to a protected resource.
func verifAccess(s *Server, n int, k string, scope Scope) (w1, w2 http.ResponseWriter, r1, r2 *http.Request, ok bool) {
	w1, r1 = verifArrive(s)
	verifMark(1)
	s.ServeHTTP(w1, r1)
	verifMark(2)
	verifHistory(s, n, k)
	w2, r2 = verifArrive(s)
	verifMark(3)
	ok = s.Authorize(w2, r2, scope)
	return
}

// verifUse: one request, then access to a protected resource.
func verifUse(s *Server, scope Scope) (w1, w2 http.ResponseWriter, r1, r2 *http.Request, ok bool) {
	w1, r1 = verifArrive(s)
	verifMark(1)
	s.ServeHTTP(w1, r1)
	verifMark(2)
	w2, r2 = verifArrive(s)
	verifMark(3)
	ok = s.Authorize(w2, r2, scope)
	return
}

// verifNext: one request, then another.
func verifNext(s *Server) (w1, w2 http.ResponseWriter, r1, r2 *http.Request) {
	w1, r1 = verifArrive(s)
	verifMark(1)
	s.ServeHTTP(w1, r1)
	verifMark(2)
	w2, r2 = verifArrive(s)
	verifMark(3)
	s.ServeHTTP(w2, r2)
	return
}
