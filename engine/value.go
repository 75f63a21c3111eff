package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// value is one of:
//
//	bool | *Expr (w==0)            booleans
//	uint64 | *Expr (w>0)           integers (masked to their width)
//	float64, complex128
//	string | *SymStr
//	structV, arrayV                aggregates (value semantics: copied on load/store)
//	*value | *symPtr               pointers
//	*sliceV semantic: []value      slices
//	*mapV, *chanV
//	*ssa.Function, *closure, *ssa.Builtin, *nativeFn
//	ifaceV
//	tupleV
//	unsafeP                        unsafe.Pointer & friends
type value interface{}

type structV []value
type arrayV []value
type tupleV []value

type ifaceV struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type nativeFn struct {
	name string
	f    func(m *M, args []value) value
}

// symPtr is a pointer to an element of cells selected by a symbolic index
// (known to be in range).
type symPtr struct {
	cells []value
	idx   *Expr
	t     types.Type // element type
}

// dataPtr is the result of unsafe.SliceData / StringData.
type dataPtr struct {
	s   []value
	str value
}

// SymStr is a string with at least one symbolic byte; len is concrete.
type SymStr struct{ b []value }

type opaque struct {
	kind string
	v    interface{}
}

type mapEntry struct {
	k, v    value
	live    bool
	ck      interface{} // concrete hash key or nil
	ordinal int
}

type mapV struct {
	ents  []*mapEntry
	idx   map[interface{}]*mapEntry
	nsym  int // live entries with symbolic keys
	n     int // live entries
	seq   int64
	kt    types.Type
	cell  value // token cell for race tracking
	stamp int64
}

type chanV struct {
	capn   int
	buf    []value
	closed bool
	recvq  []*waiter
	sendq  []*waiter

	selSend, selRecv []*waiter // cases of select statements that wait
	seq              int64
}

type waiter struct {
	g    *gor
	v    value
	done bool
	sel  int // the case of the select statement
	grp  *selGroup
}

// selGroup is a select statement that waits.
type selGroup struct {
	g    *gor
	done bool // one of its cases took place
	idx  int
	v    value
	ok   bool
}

type panicV struct{ v ifaceV }

func mkStr(b []value) value {
	sym := false
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			sym = true
			break
		}
	}
	if !sym {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.(uint64))
		}
		return string(bs)
	}
	return &SymStr{b}
}

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case nil:
		panic("strLen nil")
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strAt(v value, i int) value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v value) []value {
	switch s := v.(type) {
	case string:
		b := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = uint64(s[i])
		}
		return b
	case *SymStr:
		return append([]value(nil), s.b...)
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func strSlice(v value, i, j int) value {
	switch s := v.(type) {
	case string:
		return s[i:j]
	case *SymStr:
		return mkStr(s.b[i:j:j])
	}
	panic("strSlice")
}

func strCat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	} else if y, ok := b.(string); ok && y == "" {
		return a
	}
	return &SymStr{append(strBytes(a), strBytes(b)...)}
}

func copyVal(v value) value {
	switch x := v.(type) {
	case structV:
		n := make(structV, len(x))
		for i, e := range x {
			switch e.(type) {
			case structV, arrayV:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	case arrayV:
		n := make(arrayV, len(x))
		for i, e := range x {
			switch e.(type) {
			case structV, arrayV:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	}
	return v
}

func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UntypedNil:
			return ifaceV{}
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*mapV)(nil)
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return ifaceV{}
	case *types.Struct:
		s := make(structV, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(arrayV, u.Len())
		if u.Len() > 0 {
			z := zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := make(tupleV, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	if tp, ok := t.(*types.TypeParam); ok {
		panic("zero of type param " + tp.String())
	}
	panic(fmt.Sprintf("zero %v", t))
}

// intKind returns (width, signed) of an integer type.
func intKind(t types.Type) (uint8, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isNilVal(v value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *value:
		return x == nil
	case *symPtr:
		return false
	case []value:
		return x == nil
	case *mapV:
		return x == nil
	case *chanV:
		return x == nil
	case *ssa.Function:
		return x == nil
	case *closure:
		return x == nil
	case *nativeFn:
		return x == nil
	case ifaceV:
		return x.t == nil
	}
	return false
}

func describe(v value, depth int) string {
	if depth > 4 {
		return "…"
	}
	switch x := v.(type) {
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		var sb strings.Builder
		sb.WriteString("sym\"")
		for _, b := range x.b {
			if c, ok := b.(uint64); ok {
				sb.WriteString(fmt.Sprintf("%c", rune(c)))
			} else {
				sb.WriteString("{" + b.(*Expr).String() + "}")
			}
		}
		return sb.String() + "\""
	case *Expr:
		return x.String()
	case uint64:
		return fmt.Sprint(x)
	case ifaceV:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%v(%s)", x.t, describe(x.v, depth+1))
	case structV:
		var p []string
		for _, e := range x {
			p = append(p, describe(e, depth+1))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case tupleV:
		var p []string
		for _, e := range x {
			p = append(p, describe(e, depth+1))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case *value:
		if x == nil {
			return "nil"
		}
		return "&" + describe(*x, depth+1)
	case []value:
		var p []string
		for i, e := range x {
			if i > 40 {
				p = append(p, "…")
				break
			}
			p = append(p, describe(e, depth+1))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case *mapV:
		if x == nil {
			return "nil map"
		}
		var p []string
		for _, e := range x.ents {
			if e.live {
				p = append(p, describe(e.k, depth+1)+":"+describe(e.v, depth+1))
			}
		}
		return "map[" + strings.Join(p, ", ") + "]"
	}
	return fmt.Sprintf("%T", v)
}
