// The conformance kit: its request helper and its parameter merging.

define kitheader(q) = q.Header == nil ? emptymm() : applyheaders(emptymm(), dom(q.Header), vals(q.Header));
define kitform(q) = q.Form == nil ? emptymm() : single(q.Form);
define kitauth(q) = "Basic " + b64enc(stdb64(), q.Username + ":" + q.Password);
define kitmethod(q) = q.Method == "" ? "GET" : q.Method;
// No two headers of the specification name the same field.
define kitheadersok(q) = q.Header != nil ==>
  (forall j: string, k: string :: j in q.Header && k in q.Header && canon(j) == canon(k) ==> j == k);

func oauth2test.Do(handler, req) () {
  requires "handler and specification": handler != nil && req != nil && req.Callback != nil;
  requires "distinct headers": kitheadersok(req);
  case sent when methodok(req.Method) && parseok(req.Path) {
    modifies handled();
    ensures [X01] "delivered exactly once to the handler": ghost(h.count) == old(ghost(h.count)) + 1 && ghost(h.handler) == ref(handler);
    ensures [X01] "method and path": ghost(h.method) == old(kitmethod(req)) && ghost(h.url) == old(parsedurl(req.Path));
    ensures [X01] "headers and credentials": ghost(h.header) == old(req.Username == "" ? kitheader(req) : put(kitheader(req), "Authorization", kitauth(req)));
    ensures [X01] "form parameters": ghost(h.postform) == old(kitform(req)) && ghost(h.body) == "";
    ensures [X01] "a fresh recorder": ghost(h.fresh) == 1;
    ensures [X01] "called back exactly once, afterwards": ghost(h.callbacks) == old(ghost(h.callbacks)) + 1 && ghost(h.before) == old(ghost(h.callbacks));
    ensures [X01] "with the recorded response and the request": ghost(h.callback) == ref(req.Callback) && ghost(h.cbarg0) == ghost(h.rec) && ghost(h.cbarg1) == ghost(h.req);
    ensures [X01] "with the response as the handler left it": ghost(h.cbcode) == ghost(h.code) && ghost(h.cbtext) == ghost(h.text) && ghost(h.cbhdr) == ghost(h.rhdr);
    ensures [X01] "a new response and request each time": fresh(ghost(h.rec)) && fresh(ghost(h.req));
    calls req.Callback : ghost(h.rec), ghost(h.req);
  }
  case invalid {
    ensures [X01] "nothing is sent": ghost(h.count) == old(ghost(h.count)) && ghost(h.callbacks) == old(ghost(h.callbacks));
    panics;
  }
  event method = ghost(h.method), url = ghost(h.url), header = ghost(h.header), form = ghost(h.postform), body = ghost(h.body), rec = ghost(h.rec),
    status = as(ghost(h.rec), httptest_ResponseRecorder).Code, text = rectext(as(ghost(h.rec), httptest_ResponseRecorder)), rheader = content(whdr(as(ghost(h.rec), httptest_ResponseRecorder)));
  safe [X01]; frame [X01];
}

func oauth2test.extend(src, ext) (m) {
  signature "func(map[string]string, map[string]string) map[string]string";
  case always {
    new m : stringmap;
    ensures [X01] "keys of both": forall k: string :: k in m <==> k in src || k in ext;
    ensures [X01] "the extension wins": forall k: string :: k in m ==> m[k] == (k in ext ? ext[k] : src[k]);
  }
  safe [X01]; frame [X01];
}

// Reading answers.

define kitlocation(h) = first(h["Location"]);
define kitchallenge(h) = first(h["Www-Authenticate"]);
define kitparts(h) = split(after(kitchallenge(h), " "), ", ");
define after(s, sep) = substr(s, indexof(s, sep, 0) + 1, len(s) - (indexof(s, sep, 0) + 1));
define kitauthof(h, key) = contains(kitchallenge(h), " ") ? authval(kitparts(h), key) : "";
define kitfragment(h, key) = first(parseq(urlfragment(kitlocation(h)))[key]);
define kitquery(h, key) = first(parseq(urlquery(kitlocation(h)))[key]);

func oauth2test.jsonField(r, field) (v) {
  signature "func(*net/http/httptest.ResponseRecorder, string) interface{}";
  requires "a response": r != nil && r.Body != nil;
  case always { ensures [X02] "the member of the answered object": v == kitval(rectext(r), field); }
  safe [X02]; frame [X02];
}
func oauth2test.jsonFieldBool(r, field) (v) {
  signature "func(*net/http/httptest.ResponseRecorder, string) bool";
  requires "a response": r != nil && r.Body != nil;
  case always { ensures [X02] "the boolean member of the answered object": v == kitbool(rectext(r), field); }
  safe [X02]; frame [X02];
}
func oauth2test.jsonFieldString(r, field) (v) {
  signature "func(*net/http/httptest.ResponseRecorder, string) string";
  requires "a response": r != nil && r.Body != nil;
  case always { ensures [X02] "the text member of the answered object": v == kitstr(rectext(r), field); }
  safe [X02]; frame [X02];
}
func oauth2test.jsonFieldFloat(r, field) (v) {
  signature "func(*net/http/httptest.ResponseRecorder, string) float64";
  requires "a response": r != nil && r.Body != nil;
  case always { ensures [X02] "the numeric member of the answered object": v == kitnum(rectext(r), field); }
  safe [X02]; frame [X02];
}
func oauth2test.fragment(r, key) (v) {
  signature "func(*net/http/httptest.ResponseRecorder, string) string";
  requires "a response": r != nil;
  case readable when parseok(kitlocation(content(whdr(r)))) && qok(urlfragment(kitlocation(content(whdr(r))))) {
    ensures [X02] "the parameter of the redirect fragment": v == kitfragment(content(whdr(r)), key);
  }
  case unreadable { panics; }
  safe [X02]; frame [X02];
}
func oauth2test.query(r, key) (v) {
  signature "func(*net/http/httptest.ResponseRecorder, string) string";
  requires "a response": r != nil;
  case readable when parseok(kitlocation(content(whdr(r)))) {
    ensures [X02] "the parameter of the redirect query": v == kitquery(content(whdr(r)), key);
  }
  case unreadable { panics; }
  safe [X02]; frame [X02];
}
func oauth2test.auth(r, key) (v) {
  signature "func(*net/http/httptest.ResponseRecorder, string) string";
  requires "a response": r != nil;
  case always { ensures [X02] "the parameter of the challenge": v == kitauthof(content(whdr(r)), key); }
  safe [X02]; frame [X02];
}
