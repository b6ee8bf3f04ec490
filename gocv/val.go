package main

// Symbolic values, heap layout and types.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term (scalars, map/chan references, time.Time),
// *Ptr, *SliceV, *IfaceV, *StructV, TupleV or *FuncV.
type Val interface{}

// Ptr is a pointer to a location.
type Ptr struct {
	Root string     // component family: "F|<type>", "M|<elem>", "G|<global>"
	Ref  *Term      // object or backing reference (nil for globals)
	Idx  *Term      // element index for "M|" roots
	Path string     // leaf path prefix within the root
	T    types.Type // pointee type
	Arr  bool       // pointer to a whole array kept in "M|" memory
}

// SliceV is a slice value.
type SliceV struct {
	Ref, Off, Len, Cap *Term
	Elem               types.Type
}

// IfaceV is an interface value; Dyn is the concrete payload if known.
type IfaceV struct {
	Tag, Ref *Term
	DynT     types.Type
	Dyn      Val
}

// StructV is a struct value.
type StructV struct {
	T types.Type
	F []Val
}

// TupleV is a tuple.
type TupleV []Val

// FuncV is a function value; a nil Fn with a Lib name is a modelled library function.
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	Nil  bool
}

// typeKey names a type.
func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		path := p.Path()
		path = strings.TrimPrefix(path, "github.com/256dpi/oauth2/v2")
		path = strings.TrimPrefix(path, "/")
		return path
	})
}

func named(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// isTime reports whether values of t are represented by one integer.
func isTime(t types.Type) bool { return named(t) == "time.Time" }

func isLock(t types.Type) bool {
	n := named(t)
	return n == "sync.Mutex" || n == "sync.RWMutex" || n == "sync.Once"
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// isMM reports whether t is a map from strings to string lists.
func isMM(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	k, ok := m.Key().Underlying().(*types.Basic)
	if !ok || k.Info()&types.IsString == 0 {
		return false
	}
	s, ok := m.Elem().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// smallArr reports whether values of the array type t are kept element by element.
func smallArr(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && a.Len() <= 8 && !isByte(a.Elem())
}

// Leaf is a scalar component of a type.
type Leaf struct {
	Path string
	Sort Sort
	Ref  bool // holds a reference
	Off  bool // slice offset
	Ne   bool // non-negative
	Kind string
}

var leafCache = map[string][]Leaf{}

func basicSort(b *types.Basic) (Sort, bool) {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return SBool, true
	case b.Info()&types.IsString != 0:
		return SStr, true
	case b.Info()&types.IsInteger != 0:
		return SInt, true
	case b.Info()&types.IsFloat != 0:
		return SReal, true
	case b.Kind() == types.UnsafePointer:
		return SInt, true
	}
	return SInt, false
}

// leaves flattens a type.
func leaves(t types.Type) []Leaf {
	key := typeKey(t)
	if l, ok := leafCache[key]; ok {
		return l
	}
	var out []Leaf
	if isTime(t) {
		out = []Leaf{{"", SInt, false, false, false, "time"}}
		leafCache[key] = out
		return out
	}
	if isLock(t) {
		leafCache[key] = nil
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s, _ := basicSort(u)
		out = []Leaf{{"", s, false, false, u.Info()&types.IsUnsigned != 0, "basic"}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		out = []Leaf{{"", SInt, true, false, true, "ref"}}
	case *types.Slice:
		out = []Leaf{{".ref", SInt, true, false, true, "ref"}, {".off", SInt, false, true, true, "off"},
			{".len", SInt, false, false, true, "len"}, {".cap", SInt, false, false, true, "cap"}}
	case *types.Interface:
		out = []Leaf{{".tag", SInt, false, false, true, "tag"}, {".ref", SInt, true, false, true, "ref"}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				l.Path = "." + f.Name() + l.Path
				out = append(out, l)
			}
		}
	case *types.Array:
		// other arrays inside values are not represented
		if smallArr(t) {
			for i := int64(0); i < u.Len(); i++ {
				for _, l := range leaves(u.Elem()) {
					l.Path = fmt.Sprintf("[%d]", i) + l.Path
					out = append(out, l)
				}
			}
		}
	case *types.Tuple:
	default:
		panic(unsupported{fmt.Sprintf("type %s", t)})
	}
	leafCache[key] = out
	return out
}

// unsupported is raised when the code leaves the modelled subset.
type unsupported struct{ what string }

func (u unsupported) Error() string { return "unsupported: " + u.what }

// toLeaves flattens a value of type t.
func toLeaves(v Val, t types.Type) []*Term {
	if isLock(t) {
		return nil
	}
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *Ptr:
		return []*Term{ptrTerm(x)}
	case *SliceV:
		return []*Term{x.Ref, x.Off, x.Len, x.Cap}
	case *IfaceV:
		return []*Term{x.Tag, ifaceRef(x)}
	case *StructV:
		var out []*Term
		if a, ok := t.Underlying().(*types.Array); ok {
			for _, f := range x.F {
				out = append(out, toLeaves(f, a.Elem())...)
			}
			return out
		}
		st := t.Underlying().(*types.Struct)
		for i, f := range x.F {
			out = append(out, toLeaves(f, st.Field(i).Type())...)
		}
		return out
	case *FuncV:
		if x.Nil {
			return []*Term{IntT(0)}
		}
		return []*Term{funcTerm(x)}
	case nil:
		return nil
	}
	panic(unsupported{fmt.Sprintf("flattening %T", v)})
}

var funcIDs = map[*ssa.Function]int{}

func funcTerm(f *FuncV) *Term {
	if len(f.Bind) > 0 {
		return closTerm(f)
	}
	id, ok := funcIDs[f.Fn]
	if !ok {
		id = len(funcIDs) + 1
		funcIDs[f.Fn] = id
	}
	return App("funcref", SInt, IntT(int64(id)))
}

func ifaceRef(x *IfaceV) *Term { return x.Ref }

func ptrTerm(p *Ptr) *Term {
	if p.Path != "" || p.Idx != nil || p.Ref == nil {
		// interior pointers are only comparable, never stored
		panic(unsupported{"interior pointer " + p.Root + p.Path + " used as a value"})
	}
	return p.Ref
}

// fromLeaves rebuilds a value of type t.
func fromLeaves(t types.Type, ls []*Term) Val {
	v, rest := unflatten(t, ls)
	if len(rest) != 0 {
		panic("leaf count mismatch for " + t.String())
	}
	return v
}

func objRoot(t types.Type) string { return "F|" + typeKey(t) }

func mkPtr(elem types.Type, ref *Term) Val {
	if a, ok := elem.Underlying().(*types.Array); ok {
		return &Ptr{Root: "M|" + typeKey(a.Elem()), Ref: ref, T: elem, Arr: true}
	}
	return &Ptr{Root: objRoot(elem), Ref: ref, T: elem}
}

func unflatten(t types.Type, ls []*Term) (Val, []*Term) {
	if isTime(t) {
		return ls[0], ls[1:]
	}
	if isLock(t) {
		return nil, ls
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Map, *types.Chan:
		return ls[0], ls[1:]
	case *types.Signature:
		if ls[0].Op == "int" && ls[0].Int.Sign() == 0 {
			return &FuncV{Nil: true}, ls[1:]
		}
		if ls[0].Op == "app:closref" {
			return closures[ls[0].Args[0].Int.Int64()-1], ls[1:]
		}
		if ls[0].Op == "app:funcref" {
			for f, id := range funcIDs {
				if ls[0].Args[0].Int.Int64() == int64(id) {
					return &FuncV{Fn: f}, ls[1:]
				}
			}
		}
		return ls[0], ls[1:]
	case *types.Pointer:
		return mkPtr(u.Elem(), ls[0]), ls[1:]
	case *types.Slice:
		return &SliceV{ls[0], ls[1], ls[2], ls[3], u.Elem()}, ls[4:]
	case *types.Interface:
		return mkIface(ls[0], ls[1]), ls[2:]
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ls = unflatten(u.Field(i).Type(), ls)
			s.F = append(s.F, f)
		}
		return s, ls
	case *types.Array:
		if !smallArr(t) {
			return nil, ls
		}
		s := &StructV{T: t}
		for i := int64(0); i < u.Len(); i++ {
			var f Val
			f, ls = unflatten(u.Elem(), ls)
			s.F = append(s.F, f)
		}
		return s, ls
	}
	panic(unsupported{fmt.Sprintf("type %s", t)})
}

// zeroTime is the zero time.Time in nanoseconds relative to the Unix epoch.
var zeroTimeT = Mul(IntT(-62135596800), IntT(1000000000))

// zeroLeaf is the zero value of a leaf.
func zeroLeaf(l Leaf) *Term {
	if l.Kind == "time" {
		return zeroTimeT
	}
	return zeroOf(l.Sort)
}

func zeroOf(s Sort) *Term {
	switch s {
	case SBool:
		return tFalse
	case SInt:
		return IntT(0)
	case SStr:
		return StrT("")
	case SSL:
		return slNil
	case SReal:
		return App("real0", SReal)
	case SJV:
		return jAbsent
	}
	if _, e, ok := arrParts(s); ok {
		return ConstArr(s, zeroOf(e))
	}
	panic("zeroOf " + string(s))
}

func zeroVal(t types.Type) Val {
	if _, ok := t.(*types.Tuple); ok {
		return TupleV{}
	}
	var ls []*Term
	for _, l := range leaves(t) {
		ls = append(ls, zeroLeaf(l))
	}
	return fromLeaves(t, ls)
}

// Type tags for interface values.
var tagIDs = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func tagOf(t types.Type) *Term {
	k := typeKey(t)
	id, ok := tagIDs[k]
	if !ok {
		id = int64(len(tagIDs) + 1)
		tagIDs[k] = id
		tagTypes[id] = t
	}
	return IntT(id)
}

// libTag is the tag of a library type that is only known by name.
func libTag(name string) *Term {
	id, ok := tagIDs[name]
	if !ok {
		id = int64(len(tagIDs) + 1)
		tagIDs[name] = id
	}
	return IntT(id)
}

// mkIface rebuilds an interface value and recovers the payload when the tag is literal.
func mkIface(tag, ref *Term) *IfaceV {
	v := &IfaceV{Tag: tag, Ref: ref}
	if tag.Op == "int" {
		if t, ok := tagTypes[tag.Int.Int64()]; ok {
			v.DynT = t
			v.Dyn = unbox(t, ref)
		}
	}
	return v
}

// box encodes a scalar payload.
func boxScalar(t types.Type, x *Term) *Term { return boxSort(x) }

func boxSort(x *Term) *Term {
	n := "box" + string(x.Sort)
	if x.Op == "app:un"+n {
		return x.Args[0]
	}
	if x.Sort == SInt {
		return x
	}
	return App(n, SInt, x)
}

func unboxSort(s Sort, r *Term) *Term {
	if s == SInt {
		return r
	}
	if r.Op == "app:box"+string(s) {
		return r.Args[0]
	}
	return App("unbox"+string(s), s, r)
}

// unbox decodes an interface payload of concrete type t (nil when it lives in
// boxed struct memory, which needs the heap).
func unbox(t types.Type, ref *Term) Val {
	if isTime(t) {
		return ref
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return mkPtr(u.Elem(), ref)
	case *types.Map, *types.Chan:
		return ref
	case *types.Basic:
		s, _ := basicSort(u)
		return unboxSort(s, ref)
	}
	return nil
}

// constString renders literal strings.
func litString(v Val) (string, bool) {
	t, ok := v.(*Term)
	if ok && t.Op == "str" {
		return t.Name, true
	}
	return "", false
}
