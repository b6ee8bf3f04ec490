// Code responses.

define coderesponseattrs(c) = putif(c.State != "", put(emptymm(), "code", c.Code), "state", c.State);

func NewCodeResponse(code, redirectURI, state) (res) {
  case always {
    new res : CodeResponse;
    ensures [W03] "holds the arguments": res.Code == code && res.RedirectURI == redirectURI && res.State == state;
  }
  safe [W03]; frame [W03];
}
func CodeResponse.Map(c) (m) {
  requires "response": c != nil;
  case always {
    new m : stringmap;
    ensures [W03] "code, and state when present": single(m) == old(coderesponseattrs(c));
  }
  safe [W03]; frame [W03];
}
func WriteCodeResponse(w, c) (err) {
  requires "fresh response": unstarted(w) && !("Location" in content(whdr(w)));
  requires "response": c != nil;
  case redirect when uriok(c.RedirectURI) {
    modifies writer(w);
    ensures [W03] "redirect": status(w) == 303 && headercalls(w) == 1 && body(w) == "";
    ensures [W03] "parameters in the query": sent(w) == old(redirectheaders(content(whdr(w)), redirloc(c.RedirectURI, coderesponseattrs(c), false)));
  }
  case refused {
    ensures [W03] "an unparsable URI is an error": err != nil;
    ensures [W03] "no response": unstarted(w);
  }
  safe [W03]; frame [W03];
}
