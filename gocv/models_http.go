package main

// Contracts assumed for net/http and encoding/json.

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// respHeader is the header map reference of a response writer.
func (x *Exec) respHeader(st *State, w *Term) *Term {
	h := x.gf(st, "W|hdr", SInt, w)
	if _, ok := allocInfo(h); !ok {
		st.assume(Lt(IntT(0), h))
		st.assume(Le(h, st.level()))
	}
	return h
}

func (x *Exec) respWriteHeader(st *State, w, code *Term, pos string) {
	x.oblige(st, "safety", "valid response status", pos, And(Le(IntT(100), code), Le(code, IntT(999))))
	x.setGf(st, "W|count", SInt, w, Add(x.gf(st, "W|count", SInt, w), IntT(1)))
	x.respCommit(st, w, code)
}

func (x *Exec) respCommit(st *State, w, code *Term) {
	cur := x.gf(st, "W|status", SInt, w)
	open := st.simp(Eq(cur, IntT(0)))
	content := x.mm(st, x.respHeader(st, w))
	x.setGf(st, "W|status", SInt, w, Ite(open, code, cur))
	sent := x.gf(st, "W|sent", mmSort, w)
	x.setGf(st, "W|sent", mmSort, w, Ite(open, content, sent))
}

func (x *Exec) respWrite(st *State, w, text *Term) {
	n := x.gf(st, "W|count", SInt, w)
	open := st.simp(Eq(x.gf(st, "W|status", SInt, w), IntT(0)))
	x.setGf(st, "W|count", SInt, w, Ite(open, Add(n, IntT(1)), n))
	x.respCommit(st, w, IntT(200))
	b := x.gf(st, "W|body", SStr, w)
	x.setGf(st, "W|body", SStr, w, StrCat(b, text))
}

// ioErr is an arbitrary error, possibly nil.
func (x *Exec) ioErr(st *State) *IfaceV {
	t, r := Fresh("ioerr", SInt), Fresh("ioerr", SInt)
	st.assume(Le(IntT(0), t))
	st.assume(Implies(Eq(t, IntT(0)), Eq(r, IntT(0))))
	return &IfaceV{Tag: t, Ref: r}
}

func isPostMethod(m *Term) *Term {
	return Or(Eq(m, StrT("POST")), Eq(m, StrT("PUT")), Eq(m, StrT("PATCH")))
}

var emptyMM = ConstArr(mmSort, slNil)

// reqParts evaluates the parts of a request that determine its form.
type reqParts struct {
	pf, qf, form   *Term
	ok             *Term
	postRef, fmRef *Term
	bodyRef        *Term
}

func (x *Exec) reqForm(st *State, r *Ptr) *reqParts {
	method := x.field(st, r, "Method").(*Term)
	hdr := x.field(st, r, "Header").(*Term)
	body := x.field(st, r, "Body").(*IfaceV)
	u := x.field(st, r, "URL").(*Ptr)
	ct := First(Select(x.mm(st, hdr), StrT("Content-Type")))
	content := x.gf(st, "RD|", SStr, body.Ref)
	isPost := st.simp(isPostMethod(method))
	p := &reqParts{}
	p.postRef = x.field(st, r, "PostForm").(*Term)
	p.fmRef = x.field(st, r, "Form").(*Term)
	p.bodyRef = body.Ref
	rq := x.field(st, u, "RawQuery").(*Term)
	p.pf = Ite(isPost, UF("pf", ct, content), emptyMM)
	p.qf = UF("parseq", rq)
	p.form = UF("formmerge", p.pf, p.qf)
	p.ok = And(Implies(isPost, And(Not(Eq(body.Tag, IntT(0))), UF("pfok", ct, content))), App("qok", SBool, rq))
	return p
}

// postForm is the parsed or to-be-parsed body form.
func (x *Exec) postForm(st *State, r *Ptr) *Term {
	p := x.reqForm(st, r)
	return Ite(st.simp(Eq(p.postRef, IntT(0))), p.pf, x.mm(st, p.postRef))
}

func (x *Exec) fullForm(st *State, r *Ptr) *Term {
	p := x.reqForm(st, r)
	return Ite(st.simp(Eq(p.fmRef, IntT(0))), p.form, x.mm(st, p.fmRef))
}

func (x *Exec) parseForm(c *CallCtx, r *Ptr, k func(c *CallCtx, err *IfaceV)) {
	st := c.St
	p := x.reqForm(st, r)
	fresh := And(Eq(p.postRef, IntT(0)), Eq(p.fmRef, IntT(0)))
	c.fork(fresh, func(c *CallCtx) {
		st := c.St
		set := func(st *State, pf, f *Term) {
			x.store(st, fieldPtr(r, "PostForm"), x.newMM(st, pf))
			x.store(st, fieldPtr(r, "Form"), x.newMM(st, f))
			x.setGf(st, "RD|", SStr, p.bodyRef, Fresh("rest", SStr))
		}
		_ = st
		c.fork(p.ok, func(c *CallCtx) {
			set(c.St, p.pf, p.form)
			k(c, nilIface)
		}, func(c *CallCtx) {
			set(c.St, Fresh("pf", mmSort), Fresh("form", mmSort))
			k(c, x.freshErr(c.St))
		})
	}, func(c *CallCtx) {
		c.fork(And(Not(Eq(p.postRef, IntT(0))), Not(Eq(p.fmRef, IntT(0)))), func(c *CallCtx) { k(c, nilIface) }, func(c *CallCtx) {
			panic(unsupported{"partially parsed form"})
		})
	})
}

func init() {
	groundUnfolders["formmerge"] = func(t *Term) []*Term {
		k := BVar("k", SStr)
		return []*Term{Forall([]*Term{k}, Eq(Select(t, k), UF("slcat", Select(t.Args[0], k), Select(t.Args[1], k))), []*Term{Select(t, k)})}
	}
	rewriters["formmerge"] = func(a []*Term) *Term {
		if a[1] == emptyMM {
			return a[0]
		}
		if a[0] == emptyMM {
			return a[1]
		}
		return nil
	}
	rewriters["qok"] = func(a []*Term) *Term {
		if a[0].Op == "str" && a[0].Name == "" {
			return tTrue
		}
		return nil
	}
	m := BVar("m", mmSort)
	ct := StrT("application/x-www-form-urlencoded")
	em := mk("app:enc", SStr, "", m)
	addAxiom("pf-enc", []string{"app:pf", "app:enc"}, Forall([]*Term{m}, And(Eq(UF("pf", ct, em), m), UF("pfok", ct, em)), []*Term{UF("pf", ct, em)}, []*Term{UF("pfok", ct, em)}))
	l1, l2 := BVar("l", SSL), BVar("l", SSL)
	addAxiom("slcat-nil", []string{"app:slcat"}, And(
		Forall([]*Term{l1}, Eq(mk("app:slcat", SSL, "", l1, slNil), l1), []*Term{mk("app:slcat", SSL, "", l1, slNil)}),
		Forall([]*Term{l2}, Eq(mk("app:slcat", SSL, "", slNil, l2), l2), []*Term{mk("app:slcat", SSL, "", slNil, l2)})))
	sx := BVar("x", SStr)
	cat := mk("app:slcat", SSL, "", l1, mk("ctor:snoc", SSL, "", l2, sx))
	addAxiom("slcat-snoc", []string{"app:slcat", "ctor:snoc"}, Forall([]*Term{l1, l2, sx}, Eq(cat, Snoc(mk("app:slcat", SSL, "", l1, l2), sx)), []*Term{cat}))

	// response writers
	for _, rw := range []string{"(net/http.ResponseWriter)", "(*net/http/httptest.ResponseRecorder)"} {
		ref := func(c *CallCtx) *Term {
			switch v := c.Args[0].(type) {
			case *IfaceV:
				c.X.oblige(c.St, "safety", "nil dereference", c.X.pos(c.Pos), Not(Eq(v.Tag, IntT(0))))
				return v.Ref
			case *Ptr:
				c.X.nonNil(c.St, v, c.Pos)
				return v.Ref
			}
			panic(unsupported{"response writer"})
		}
		models[rw+".Header"] = func(c *CallCtx) { c.ret(c.X.respHeader(c.St, ref(c))) }
		models[rw+".WriteHeader"] = func(c *CallCtx) {
			c.X.respWriteHeader(c.St, ref(c), c.str(1), c.X.pos(c.Pos))
			c.ret()
		}
		models[rw+".Write"] = func(c *CallCtx) {
			s := c.slice(1)
			c.X.respWrite(c.St, ref(c), c.X.bytesOf(c.St, s))
			c.ret(Fresh("n", SInt), c.X.ioErr(c.St))
		}
	}
	models["(*net/http/httptest.ResponseRecorder).WriteString"] = func(c *CallCtx) {
		c.X.respWrite(c.St, c.ptr(0).Ref, c.str(1))
		c.ret(Fresh("n", SInt), nilIface)
	}
	models["io.WriteString"] = func(c *CallCtx) {
		c.X.writeTo(c, c.iface(0), c.str(1))
	}
	models["net/http/httptest.NewRecorder"] = func(c *CallCtx) {
		x, st := c.X, c.St
		p := x.allocObj(st, c.resType(0).(*types.Pointer).Elem())
		x.setGf(st, "W|status", SInt, p.Ref, IntT(0))
		x.setGf(st, "W|count", SInt, p.Ref, IntT(0))
		x.setGf(st, "W|body", SStr, p.Ref, StrT(""))
		x.setGf(st, "W|sent", mmSort, p.Ref, emptyMM)
		h := x.newMM(st, emptyMM)
		x.setGf(st, "W|hdr", SInt, p.Ref, h)
		x.store(st, fieldPtr(p, "HeaderMap"), h)
		x.store(st, fieldPtr(p, "Code"), IntT(200))
		b := x.alloc(st)
		x.setGf(st, "RD|", SStr, b, StrT(""))
		x.store(st, fieldPtr(p, "Body"), mkPtr(fieldPtr(p, "Body").T.Underlying().(*types.Pointer).Elem(), b))
		c.ret(p)
	}
	models["net/http.NotFound"] = func(c *CallCtx) { c.X.httpError(c, c.iface(0).Ref, StrT("404 page not found"), IntT(404)); c.ret() }
	models["net/http.Error"] = func(c *CallCtx) { c.X.httpError(c, c.iface(0).Ref, c.str(1), c.str(2)); c.ret() }
	// requests
	models["(*net/http.Request).ParseForm"] = func(c *CallCtx) {
		c.X.parseForm(c, c.ptr(0), func(c *CallCtx, err *IfaceV) { c.ret(err) })
	}
	models["(*net/http.Request).BasicAuth"] = func(c *CallCtx) {
		h := c.X.authHeader(c.St, c.ptr(0))
		c.fork(UF("baok", h), func(c *CallCtx) { c.ret(UF("bauser", h), UF("bapass", h), tTrue) },
			func(c *CallCtx) { c.ret(StrT(""), StrT(""), tFalse) })
	}
	models["(*net/http.Request).SetBasicAuth"] = func(c *CallCtx) {
		x, st := c.X, c.St
		h := x.field(st, c.ptr(0), "Header").(*Term)
		if _, ok := allocInfo(h); !ok {
			x.oblige(st, "safety", "assignment to nil map", x.pos(c.Pos), Not(Eq(h, IntT(0))))
		}
		v := UF("bahdr", c.str(1), c.str(2))
		if strings.HasPrefix(x.U.Name, "oauth2test.") {
			std := x.comp(st, "G|encoding/base64.StdEncoding|", SInt)
			v = StrCat(StrT("Basic "), UF("b64enc", std, StrCat(c.str(1), StrCat(StrT(":"), c.str(2)))))
		}
		x.setMM(st, h, Store(x.mm(st, h), StrT("Authorization"), SLT(v)))
		c.ret()
	}
	formValue := func(post bool) modelFn {
		return func(c *CallCtx) {
			r := c.ptr(0)
			x := c.X
			get := func(c *CallCtx, _ *IfaceV) {
				f := "Form"
				if post {
					f = "PostForm"
				}
				c.ret(First(Select(x.mm(c.St, x.field(c.St, r, f).(*Term)), c.str(1))))
			}
			// ParseMultipartForm only differs from ParseForm for multipart bodies
			x.U.assume("bodies read through FormValue or PostFormValue are not multipart")
			x.parseForm(c, r, get)
		}
	}
	models["(*net/http.Request).FormValue"] = formValue(false)
	models["(*net/http.Request).PostFormValue"] = formValue(true)
	newReq := func(c *CallCtx, i int) {
		x := c.X
		method, uri, body := c.str(i), c.str(i+1), c.iface(i+2)
		ok := And(UF("methodok", method), UF("parseok", uri))
		method = Ite(Eq(method, StrT("")), StrT("GET"), method)
		c.fork(ok, func(c *CallCtx) {
			st := c.St
			rt := c.resType(0).(*types.Pointer).Elem()
			p := x.buildRequest(st, rt, method, uri, "urlp:", body)
			c.ret(p, nilIface)
		}, func(c *CallCtx) { c.ret(zeroVal(c.resType(0)), x.freshErr(c.St)) })
	}
	rewriters["methodok"] = func(a []*Term) *Term {
		if a[0].Op != "str" {
			return nil
		}
		for _, r := range a[0].Name {
			if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("!#$%&'*+-.^_`|~", r)) {
				return tFalse
			}
		}
		return tTrue
	}
	// a handler supplied by the user: what it is given is recorded; it may answer
	// and change the request
	models["(net/http.Handler).ServeHTTP"] = func(c *CallCtx) {
		x, st := c.X, c.St
		h, w, r := c.iface(0), c.iface(1), c.ptr(2)
		x.oblige(st, "safety", "nil dereference", x.pos(c.Pos), Not(Eq(h.Tag, IntT(0))))
		x.U.assume("callbacks do not modify state the caller relies on")
		st.heap["S|h.count"] = Add(x.ghost(st, "h.count"), IntT(1))
		st.heap["S|h.before"] = x.ghost(st, "h.callbacks")
		st.heap["S|h.handler"] = h.Ref
		st.heap["S|h.rec"] = w.Ref
		st.heap["S|h.req"] = r.Ref
		st.heap["S|h.method"] = x.field(st, r, "Method").(*Term)
		st.heap["S|h.url"] = x.urlString(st, x.field(st, r, "URL").(*Ptr))
		hd := x.field(st, r, "Header").(*Term)
		st.heap["S|h.header"] = x.mm(st, hd)
		pf := x.field(st, r, "PostForm").(*Term)
		st.heap["S|h.postform"] = x.mm(st, pf)
		body := x.field(st, r, "Body").(*IfaceV)
		st.heap["S|h.body"] = Ite(Eq(body.Tag, IntT(0)), StrT(""), x.gf(st, "RD|", SStr, body.Ref))
		unstarted := And(Eq(x.gf(st, "W|status", SInt, w.Ref), IntT(0)), Eq(x.gf(st, "W|count", SInt, w.Ref), IntT(0)), Eq(x.gf(st, "W|body", SStr, w.Ref), StrT("")), Eq(x.mm(st, x.respHeader(st, w.Ref)), emptyMM))
		st.heap["S|h.fresh"] = Ite(unstarted, IntT(1), IntT(0))
		x.setGf(st, "W|status", SInt, w.Ref, Fresh("h.status", SInt))
		x.setGf(st, "W|count", SInt, w.Ref, Fresh("h.count", SInt))
		x.setGf(st, "W|body", SStr, w.Ref, Fresh("h.body", SStr))
		x.setGf(st, "W|sent", mmSort, w.Ref, Fresh("h.sent", mmSort))
		x.setMM(st, x.respHeader(st, w.Ref), Fresh("h.whdr", mmSort))
		x.recorded(st, w)
		x.setMM(st, hd, Fresh("h.hdr", mmSort))
		x.setMM(st, pf, Fresh("h.pf", mmSort))
		x.store(st, fieldPtr(r, "Method"), Fresh("h.method", SStr))
		c.ret()
	}
	models["net/http.NewRequest"] = func(c *CallCtx) { newReq(c, 0) }
	models["net/http.NewRequestWithContext"] = func(c *CallCtx) { newReq(c, 1) }
	models["(*net/http.Client).Do"] = func(c *CallCtx) {
		x := c.X
		cl := c.ptr(0)
		req := c.ptr(1)
		st := c.St
		n := x.ghost(st, "net.count")
		st.heap["S|net.count"] = Add(n, IntT(1))
		st.heap["S|net.client"] = cl.Ref
		st.heap["S|net.method"] = x.field(st, req, "Method").(*Term)
		st.heap["S|net.url"] = x.urlString(st, x.field(st, req, "URL").(*Ptr))
		st.heap["S|net.header"] = x.mm(st, x.field(st, req, "Header").(*Term))
		st.heap["S|net.body"] = x.gf(st, "RD|", SStr, x.field(st, req, "Body").(*IfaceV).Ref)
		okT := App("netok", SBool, n)
		c.fork(okT, func(c *CallCtx) {
			st := c.St
			rt := c.resType(0).(*types.Pointer).Elem()
			p := x.allocObj(st, rt)
			rec := func(name string, t *Term) *Term {
				st.heap["S|net."+name] = t
				return t
			}
			x.store(st, fieldPtr(p, "StatusCode"), rec("code", Fresh("res.StatusCode", SInt)))
			x.store(st, fieldPtr(p, "Status"), rec("text", Fresh("res.Status", SStr)))
			x.store(st, fieldPtr(p, "Header"), x.newMM(st, rec("reshdr", Fresh("res.Header", mmSort))))
			b := rec("resbody", x.alloc(st))
			x.setGf(st, "RD|", SStr, b, rec("data", Fresh("res.Body", SStr)))
			x.setGf(st, "CL|", SInt, b, IntT(0))
			x.store(st, fieldPtr(p, "Body"), &IfaceV{Tag: libTag("*http.body"), Ref: b})
			st.heap["S|net.res"] = p.Ref
			st.heap["S|net.failed"] = IntT(0)
			c.ret(p, nilIface)
		}, func(c *CallCtx) {
			c.St.heap["S|net.failed"] = IntT(1)
			c.ret(zeroVal(c.resType(0)), x.freshErr(c.St))
		})
	}
	// json
	models["encoding/json.Marshal"] = func(c *CallCtx) {
		v := c.iface(0)
		c.X.jsonText(c, v, func(c *CallCtx, text, ok *Term) {
			c.fork(ok, func(c *CallCtx) { c.ret(c.X.newBytes(c.St, text, types.Typ[types.Byte]), nilIface) },
				func(c *CallCtx) { c.ret(zeroVal(types.NewSlice(types.Typ[types.Byte])), c.X.freshErr(c.St)) })
		})
	}
	models["encoding/json.NewEncoder"] = func(c *CallCtx) {
		x, st := c.X, c.St
		r := x.alloc(st)
		x.setGf(st, "EN|tag", SInt, r, c.iface(0).Tag)
		x.setGf(st, "EN|ref", SInt, r, c.iface(0).Ref)
		c.ret(mkPtr(c.resType(0).(*types.Pointer).Elem(), r))
	}
	models["(*encoding/json.Encoder).Encode"] = func(c *CallCtx) {
		x := c.X
		p := c.ptr(0)
		v := c.iface(1)
		x.jsonText(c, v, func(c *CallCtx, text, ok *Term) {
			c.fork(ok, func(c *CallCtx) {
				st := c.St
				w := mkIface(x.gf(st, "EN|tag", SInt, p.Ref), x.gf(st, "EN|ref", SInt, p.Ref))
				k := c.K
				c.K = func(st *State, o Outcome) { k(st, Outcome{Rets: o.Rets[1:]}) }
				x.writeTo(c, w, StrCat(text, StrT("\n")))
			}, func(c *CallCtx) { c.ret(x.freshErr(c.St)) })
		})
	}
	models["encoding/json.Unmarshal"] = func(c *CallCtx) {
		d := c.X.bytesOf(c.St, c.slice(0))
		v := c.iface(1)
		if v.DynT == nil {
			panic(unsupported{"json.Unmarshal target"})
		}
		p, ok := c.X.payload(c.St, v, v.DynT).(*Ptr)
		if !ok {
			panic(unsupported{"json.Unmarshal target"})
		}
		c.X.unmarshal(c, d, p, func(c *CallCtx, err *IfaceV) { c.ret(err) })
	}
}

// writeTo writes text to an io.Writer and returns (n, err).
func (x *Exec) writeTo(c *CallCtx, w *IfaceV, text *Term) {
	st := c.St
	if w.DynT != nil {
		n := typeKeyFull(w.DynT)
		switch n {
		case "*strings.Builder":
			r := bufRef(x.payload(st, w, w.DynT).(*Ptr))
			x.setGf(st, "SB|", SStr, r, StrCat(x.gf(st, "SB|", SStr, r), text))
			c.ret(StrLen(text), nilIface)
			return
		case "*bytes.Buffer":
			r := bufRef(x.payload(st, w, w.DynT).(*Ptr))
			x.setGf(st, "RD|", SStr, r, StrCat(x.gf(st, "RD|", SStr, r), text))
			c.ret(StrLen(text), nilIface)
			return
		case "*net/http/httptest.ResponseRecorder":
		default:
			panic(unsupported{"write to " + n})
		}
	}
	x.oblige(st, "safety", "nil dereference", x.pos(c.Pos), Not(Eq(w.Tag, IntT(0))))
	x.respWrite(st, w.Ref, text)
	c.ret(Fresh("n", SInt), x.ioErr(st))
}

func (x *Exec) httpError(c *CallCtx, w, text, code *Term) {
	st := c.St
	h := x.respHeader(st, w)
	m := x.mm(st, h)
	m = Store(m, StrT("Content-Length"), slNil)
	m = Store(m, StrT("Content-Type"), SLT(StrT("text/plain; charset=utf-8")))
	m = Store(m, StrT("X-Content-Type-Options"), SLT(StrT("nosniff")))
	x.setMM(st, h, m)
	x.respWriteHeader(st, w, code, x.pos(c.Pos))
	x.respWrite(st, w, StrCat(text, StrT("\n")))
}

// authHeader is the first Authorization header value.
func (x *Exec) authHeader(st *State, r *Ptr) *Term {
	h := x.field(st, r, "Header").(*Term)
	return First(Select(x.mm(st, h), StrT("Authorization")))
}

// buildRequest allocates an outgoing request.
func (x *Exec) buildRequest(st *State, rt types.Type, method, uri *Term, prefix string, body *IfaceV) *Ptr {
	p := x.allocObj(st, rt)
	x.store(st, fieldPtr(p, "Method"), method)
	ut := fieldPtr(p, "URL").T.(*types.Pointer).Elem()
	x.store(st, fieldPtr(p, "URL"), x.newURL(st, ut, prefix, uri))
	x.store(st, fieldPtr(p, "Header"), x.newMM(st, emptyMM))
	x.store(st, fieldPtr(p, "Host"), Fresh("req.Host", SStr))
	x.store(st, fieldPtr(p, "ContentLength"), Fresh("req.ContentLength", SInt))
	if body.Tag.Op == "int" && body.Tag.Int.Sign() == 0 {
		return p
	}
	b := x.alloc(st)
	x.setGf(st, "RD|", SStr, b, x.gf(st, "RD|", SStr, body.Ref))
	x.store(st, fieldPtr(p, "Body"), &IfaceV{Tag: Ite(Eq(body.Tag, IntT(0)), IntT(0), libTag("io.nopCloser")), Ref: Ite(Eq(body.Tag, IntT(0)), IntT(0), b)})
	return p
}

// method finds a json method on a type.
func (x *Exec) jsonMethod(t types.Type, name string) (fn *ssa.Function) {
	ms := x.V.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.V.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// jsonText computes the JSON encoding of a value and whether it is encodable.
func (x *Exec) jsonText(c *CallCtx, v *IfaceV, k func(c *CallCtx, text, ok *Term)) {
	if v.DynT == nil {
		tag := c.St.simp(v.Tag)
		if tag.Op == "int" && tag.Int.Sign() == 0 {
			k(c, StrT("null"), tTrue)
			return
		}
		if tag.Op == "int" && tagTypes[tag.Int.Int64()] != nil {
			v = mkIface(tag, v.Ref)
			v.DynT = tagTypes[tag.Int.Int64()]
		} else {
			k(c, UF("jany", v.Tag, v.Ref), UF("jencodable", v.Tag, v.Ref))
			return
		}
	}
	x.jsonVal(c, x.payload(c.St, v, v.DynT), v.DynT, k)
}

func (x *Exec) jsonVal(c *CallCtx, v Val, t types.Type, k func(c *CallCtx, text, ok *Term)) {
	if fn := x.jsonMethod(t, "MarshalJSON"); fn != nil && !isTime(t) {
		x.callFn(c.Fr, c.St, &FuncV{Fn: fn}, []Val{v}, c.Pos, false, func(st *State, o Outcome) {
			c2 := *c
			c2.St = st
			if o.Panic != nil {
				c2.K(st, o)
				return
			}
			e := o.Rets[1].(*IfaceV)
			k(&c2, st.simp(x.bytesOf(st, o.Rets[0].(*SliceV))), Eq(e.Tag, IntT(0)))
		})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		tm := v.(*Term)
		switch {
		case u.Info()&types.IsString != 0:
			k(c, UF("jencstr", tm), tTrue)
		case u.Info()&types.IsInteger != 0:
			k(c, UF("itoa", tm), tTrue)
		case u.Info()&types.IsBoolean != 0:
			k(c, Ite(tm, StrT("true"), StrT("false")), tTrue)
		default:
			panic(unsupported{"json of " + t.String()})
		}
	case *types.Pointer:
		p := v.(*Ptr)
		c.fork(Eq(p.Ref, IntT(0)), func(c *CallCtx) { k(c, StrT("null"), tTrue) }, func(c *CallCtx) {
			x.jsonVal(c, x.load(c.St, p), u.Elem(), k)
		})
	case *types.Struct:
		x.jsonStruct(c, v.(*StructV), u, 0, ConstArr(docSort, jAbsent), tTrue, func(c *CallCtx, d, ok *Term) { k(c, UF("jenc", d), ok) })
	case *types.Interface:
		x.jsonText(c, v.(*IfaceV), k)
	case *types.Map:
		m := v.(*Term)
		// maps from strings to strings or values
		if isStrStr(t) {
			k(c, App("jencmap", SStr, x.mapDom(c.St, t, m), x.mapVals(c.St, t, m, leaves(u.Elem())[0])), tTrue)
			return
		}
		k(c, App("jmap", SStr, m), App("jmapok", SBool, m))
	default:
		panic(unsupported{"json of " + t.String()})
	}
}

func isStrStr(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	k, ok1 := m.Key().Underlying().(*types.Basic)
	e, ok2 := m.Elem().Underlying().(*types.Basic)
	return ok1 && ok2 && k.Info()&types.IsString != 0 && e.Info()&types.IsString != 0
}

var docSort = ArrS(SStr, SJV)

func jStr(t *Term) *Term  { return Ctor("jstr", SJV, t) }
func jInt(t *Term) *Term  { return Ctor("jint", SJV, t) }
func jBool(t *Term) *Term { return Ctor("jbool", SJV, t) }

// jvOf wraps an encoded text.
func jvOf(text *Term) *Term {
	if text.Op == "app:jencstr" {
		return jStr(text.Args[0])
	}
	return Ctor("jraw", SJV, boxSort(text))
}

func jsonTag(s *types.Struct, i int) (name string, omit, skip bool) {
	name = s.Field(i).Name()
	tag := reflect.StructTag(s.Tag(i)).Get("json")
	if tag == "-" || !s.Field(i).Exported() {
		return "", false, true
	}
	parts := strings.Split(tag, ",")
	if parts[0] != "" {
		name = parts[0]
	}
	for _, o := range parts[1:] {
		switch o {
		case "omitempty":
			omit = true
		default:
			panic(unsupported{"json tag option " + o})
		}
	}
	return
}

func (x *Exec) jsonStruct(c *CallCtx, v *StructV, s *types.Struct, i int, doc, ok *Term, k func(c *CallCtx, doc, ok *Term)) {
	if i == s.NumFields() {
		k(c, doc, ok)
		return
	}
	name, omit, skip := jsonTag(s, i)
	if s.Field(i).Anonymous() {
		panic(unsupported{"embedded field in json"})
	}
	if skip {
		x.jsonStruct(c, v, s, i+1, doc, ok, k)
		return
	}
	ft := s.Field(i).Type()
	empty := tFalse
	if omit {
		switch u := ft.Underlying().(type) {
		case *types.Basic:
			empty = Eq(v.F[i].(*Term), zeroVal(ft).(*Term))
		case *types.Slice:
			empty = Eq(v.F[i].(*SliceV).Len, IntT(0))
		case *types.Map:
			m := v.F[i].(*Term)
			empty = Or(Eq(m, IntT(0)), Eq(App("card", SInt, x.mapDom(c.St, ft, m)), IntT(0)))
		case *types.Pointer:
			empty = Eq(v.F[i].(*Ptr).Ref, IntT(0))
		case *types.Interface:
			empty = Eq(v.F[i].(*IfaceV).Tag, IntT(0))
		default:
			_ = u
		}
	}
	empty = c.St.simp(empty)
	if empty.Op == "true" {
		x.jsonStruct(c, v, s, i+1, doc, ok, k)
		return
	}
	put := func(c *CallCtx, jv, o *Term) {
		x.jsonStruct(c, v, s, i+1, Store(doc, StrT(name), Ite(empty, jAbsent, jv)), And(ok, Or(empty, o)), k)
	}
	if b, isB := ft.Underlying().(*types.Basic); isB && x.jsonMethod(ft, "MarshalJSON") == nil {
		t := v.F[i].(*Term)
		switch {
		case b.Info()&types.IsString != 0:
			put(c, jStr(t), tTrue)
			return
		case b.Info()&types.IsInteger != 0:
			put(c, jInt(t), tTrue)
			return
		case b.Info()&types.IsBoolean != 0:
			put(c, jBool(t), tTrue)
			return
		}
	}
	x.jsonVal(c, v.F[i], ft, func(c *CallCtx, text, o *Term) { put(c, jvOf(text), o) })
}

// unmarshal decodes JSON text into the target.
func (x *Exec) unmarshal(c *CallCtx, d *Term, p *Ptr, k func(c *CallCtx, err *IfaceV)) {
	t := p.T
	if fn := x.jsonMethod(types.NewPointer(t), "UnmarshalJSON"); fn != nil {
		// syntax is checked before the method is called
		c.fork(App("jsyntax", SBool, d), func(c *CallCtx) {
			buf := x.newBytes(c.St, d, types.Typ[types.Byte])
			x.callFn(c.Fr, c.St, &FuncV{Fn: fn}, []Val{p, buf}, c.Pos, false, func(st *State, o Outcome) {
				c2 := *c
				c2.St = st
				if o.Panic != nil {
					c2.K(st, o)
					return
				}
				k(&c2, o.Rets[0].(*IfaceV))
			})
		}, func(c *CallCtx) { k(c, x.freshErr(c.St)) })
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			c.fork(UF("jstrok", d), func(c *CallCtx) {
				old := x.load(c.St, p).(*Term)
				x.store(c.St, p, Ite(App("jnull", SBool, d), old, UF("jstrval", d)))
				k(c, nilIface)
			}, func(c *CallCtx) { k(c, x.freshErr(c.St)) })
			return
		}
	case *types.Struct:
		c.fork(App("jok:"+typeKey(t), SBool, d), func(c *CallCtx) {
			x.unmarshalFields(c, d, p, u, 0, k)
		}, func(c *CallCtx) {
			// a failed decoding may leave a partially filled value
			x.havocStruct(c.St, p, u)
			k(c, x.freshErr(c.St))
		})
		return
	}
	panic(unsupported{"json decoding into " + t.String()})
}

func (x *Exec) havocStruct(st *State, p *Ptr, s *types.Struct) {
	for i := 0; i < s.NumFields(); i++ {
		if _, _, skip := jsonTag(s, i); skip {
			continue
		}
		f := fieldPtr(p, s.Field(i).Name())
		x.store(st, f, x.freshVal(st, f.T, "partial"))
	}
}

func (x *Exec) unmarshalFields(c *CallCtx, d *Term, p *Ptr, s *types.Struct, i int, k func(c *CallCtx, err *IfaceV)) {
	if i == s.NumFields() {
		k(c, nilIface)
		return
	}
	name, _, skip := jsonTag(s, i)
	if skip {
		x.unmarshalFields(c, d, p, s, i+1, k)
		return
	}
	f := fieldPtr(p, s.Field(i).Name())
	has := UF("jhas", d, StrT(name))
	next := func(c *CallCtx) { x.unmarshalFields(c, d, p, s, i+1, k) }
	if x.jsonMethod(types.NewPointer(f.T), "UnmarshalJSON") != nil {
		c.fork(has, func(c *CallCtx) {
			raw := UF("jraw", d, StrT(name))
			c.St.assume(App("jsyntax", SBool, raw))
			x.unmarshal(c, raw, f, func(c *CallCtx, err *IfaceV) {
				c.fork(Eq(err.Tag, IntT(0)), next, func(c *CallCtx) {
					x.havocStruct(c.St, p, s)
					k(c, err)
				})
			})
		}, next)
		return
	}
	st := c.St
	var v *Term
	switch u := f.T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			v = UF("jstr", d, StrT(name))
		case u.Info()&types.IsInteger != 0:
			v = UF("jint", d, StrT(name))
		case u.Info()&types.IsBoolean != 0:
			v = UF("jbool", d, StrT(name))
		}
	case *types.Map:
		v = UF("jref", d, StrT(name))
		st.assume(Le(IntT(0), v))
	}
	if v == nil {
		panic(unsupported{"json field of type " + f.T.String()})
	}
	old := x.load(st, f).(*Term)
	x.store(st, f, Ite(has, v, old))
	next(c)
}

var _ = token.NoPos
