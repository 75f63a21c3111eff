package main

import (
	"go/types"
)

// A model of reflection: a reflect.Value holds the type, a cell with the value
// and flags (1: read only, 2: addressable).  It covers what fmt, internal/fmtsort
// and DeepEqual ask of it.

const (
	rvRO   = 1
	rvAddr = 2
)

func rv(t types.Type, c *value, flag uint64) value {
	return structV{&opaque{"rtype", t}, c, flag}
}

func rvOf(m *M, v value) (types.Type, *value, uint64) {
	s := v.(structV)
	o, ok := s[0].(*opaque)
	if !ok {
		return nil, nil, 0
	}
	f, _ := s[2].(uint64)
	return o.v.(types.Type), s[1].(*value), f
}

func cell(v value) *value {
	c := new(value)
	*c = copyVal(v)
	return c
}


func rkind(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.UnsafePointer:
			return 26
		}
	}
	return reflectKind(t)
}

func registerReflect(L *Loader) {
	N := L.natives
	none := structV{(*value)(nil), (*value)(nil), uint64(0)}
	typ := func(m *M, t types.Type) value { return ifaceV{m.L.rtypeType(), &opaque{"rtype", t}} }
	type self struct {
		t types.Type
		c *value
		f uint64
	}
	reg := func(name string, f func(m *M, s self, a []value) value) {
		N["(reflect.Value)."+name] = func(m *M, a []value) value {
			t, c, fl := rvOf(m, a[0])
			if t == nil && name != "IsValid" && name != "Kind" && name != "String" {
				m.rtPanic("reflect: call of reflect.Value." + name + " on zero Value")
			}
			return f(m, self{t, c, fl}, a[1:])
		}
	}
	N["reflect.ValueOf"] = func(m *M, a []value) value {
		i := a[0].(ifaceV)
		if i.t == nil {
			return copyVal(none)
		}
		return rv(i.t, cell(i.v), 0)
	}
	reg("IsValid", func(m *M, s self, a []value) value { return s.t != nil })
	reg("Kind", func(m *M, s self, a []value) value {
		if s.t == nil {
			return uint64(0)
		}
		return uint64(rkind(s.t))
	})
	reg("CanInterface", func(m *M, s self, a []value) value { return s.f&rvRO == 0 })
	reg("CanAddr", func(m *M, s self, a []value) value { return s.f&rvAddr != 0 })
	reg("Type", func(m *M, s self, a []value) value { return typ(m, s.t) })
	reg("Interface", func(m *M, s self, a []value) value {
		v := copyVal(m.load(s.c))
		if types.IsInterface(s.t) {
			return v
		}
		return ifaceV{s.t, v}
	})
	reg("Bool", func(m *M, s self, a []value) value { return m.load(s.c) })
	reg("Int", func(m *M, s self, a []value) value { return m.convert(m.load(s.c), s.t, types.Typ[types.Int64]) })
	reg("Uint", func(m *M, s self, a []value) value { return m.convert(m.load(s.c), s.t, types.Typ[types.Uint64]) })
	reg("Float", func(m *M, s self, a []value) value { return m.load(s.c) })
	reg("Complex", func(m *M, s self, a []value) value { return m.load(s.c) })
	reg("String", func(m *M, s self, a []value) value {
		if s.t == nil {
			return "<invalid Value>"
		}
		if rkind(s.t) != 24 {
			return "<" + reflectName(s.t) + " Value>"
		}
		return m.load(s.c)
	})
	reg("Bytes", func(m *M, s self, a []value) value {
		switch x := m.load(s.c).(type) {
		case []value:
			return x
		case arrayV:
			return []value(x)
		}
		m.unsupported("reflect.Value.Bytes of %v", s.t)
		return nil
	})
	reg("Len", func(m *M, s self, a []value) value {
		switch x := m.load(s.c).(type) {
		case []value:
			return i2v(len(x))
		case arrayV:
			return i2v(len(x))
		case string, *SymStr:
			return i2v(strLen(x))
		case *mapV:
			if x == nil {
				return uint64(0)
			}
			return i2v(x.n)
		}
		m.unsupported("reflect.Value.Len of %v", s.t)
		return nil
	})
	reg("IsNil", func(m *M, s self, a []value) value {
		v := m.load(s.c)
		if x, ok := v.([]value); ok {
			return x == nil
		}
		if i, ok := v.(ifaceV); ok {
			return i.t == nil
		}
		return isNilVal(v)
	})
	reg("Index", func(m *M, s self, a []value) value {
		i, ok := a[0].(uint64)
		if !ok {
			m.unsupported("reflect.Value.Index of a symbolic index")
		}
		switch x := m.load(s.c).(type) {
		case []value:
			if i >= uint64(len(x)) {
				m.rtPanic("reflect: slice index out of range")
			}
			return rv(s.t.Underlying().(*types.Slice).Elem(), &x[i], s.f&rvRO|rvAddr)
		case arrayV:
			if i >= uint64(len(x)) {
				m.rtPanic("reflect: array index out of range")
			}
			return rv(s.t.Underlying().(*types.Array).Elem(), &x[i], s.f)
		}
		m.unsupported("reflect.Value.Index of %v", s.t)
		return nil
	})
	reg("Elem", func(m *M, s self, a []value) value {
		switch x := m.load(s.c).(type) {
		case ifaceV:
			if x.t == nil {
				return copyVal(none)
			}
			return rv(x.t, cell(x.v), s.f&rvRO)
		case *value:
			if x == nil {
				return copyVal(none)
			}
			if p, ok := s.t.Underlying().(*types.Pointer); ok {
				return rv(p.Elem(), x, s.f&rvRO|rvAddr)
			}
		}
		m.unsupported("reflect.Value.Elem of %v", s.t)
		return nil
	})
	reg("NumField", func(m *M, s self, a []value) value {
		return i2v(s.t.Underlying().(*types.Struct).NumFields())
	})
	reg("Field", func(m *M, s self, a []value) value {
		i, ok := a[0].(uint64)
		x, ok2 := m.load(s.c).(structV)
		if !ok || !ok2 || i >= uint64(len(x)) {
			m.unsupported("reflect.Value.Field of %v", s.t)
		}
		f := s.t.Underlying().(*types.Struct).Field(int(i))
		fl := s.f
		if !f.Exported() {
			fl |= rvRO
		}
		return rv(f.Type(), &x[i], fl)
	})
	reg("UnsafePointer", func(m *M, s self, a []value) value {
		if x, ok := m.load(s.c).(*value); ok {
			return x
		}
		m.unsupported("reflect.Value.UnsafePointer of %v", s.t)
		return nil
	})
	reg("MapIndex", func(m *M, s self, a []value) value {
		_, c, _ := rvOf(m, a[0])
		mp, _ := m.load(s.c).(*mapV)
		e := m.mapFind(mp, m.load(c), false)
		if e == nil {
			return copyVal(none)
		}
		return rv(s.t.Underlying().(*types.Map).Elem(), cell(e.v), s.f&rvRO)
	})
	entries := func(m *M, s self) []*mapEntry {
		mp, _ := m.load(s.c).(*mapV)
		if mp == nil {
			return nil
		}
		m.traceMap(mp, false)
		var out []*mapEntry
		for _, e := range mp.ents {
			if e.live {
				out = append(out, e)
			}
		}
		return out
	}
	reg("MapKeys", func(m *M, s self, a []value) value {
		out := []value{}
		for _, e := range entries(m, s) {
			out = append(out, rv(s.t.Underlying().(*types.Map).Key(), cell(e.k), s.f&rvRO))
		}
		return out
	})
	type mapIter struct {
		s    self
		ents []*mapEntry
		pos  int
	}
	reg("MapRange", func(m *M, s self, a []value) value {
		c := new(value)
		*c = &opaque{"mapiter", &mapIter{s, entries(m, s), -1}}
		return c
	})
	it := func(a []value) *mapIter { return (*a[0].(*value)).(*opaque).v.(*mapIter) }
	N["(*reflect.MapIter).Next"] = func(m *M, a []value) value {
		i := it(a)
		i.pos++
		return i.pos < len(i.ents)
	}
	N["(*reflect.MapIter).Key"] = func(m *M, a []value) value {
		i := it(a)
		return rv(i.s.t.Underlying().(*types.Map).Key(), cell(i.ents[i.pos].k), i.s.f&rvRO)
	}
	N["(*reflect.MapIter).Value"] = func(m *M, a []value) value {
		i := it(a)
		return rv(i.s.t.Underlying().(*types.Map).Elem(), cell(i.ents[i.pos].v), i.s.f&rvRO)
	}
	N["reflect.DeepEqual"] = func(m *M, a []value) value {
		x, y := a[0].(ifaceV), a[1].(ifaceV)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !identical(x.t, y.t) {
			return false
		}
		return m.deepEqual(x.t, x.v, y.v, 0)
	}
}

// deepEqual is reflect.DeepEqual of two values of type t.
func (m *M) deepEqual(t types.Type, a, b value, depth int) value {
	if depth > 64 {
		m.unsupported("reflect.DeepEqual of a cyclic value")
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, _ := a.([]value)
		y, _ := b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r value = true
		for i := range x {
			if r = m.andV(r, m.deepEqual(u.Elem(), x[i], y[i], depth+1)); r == false {
				return false
			}
		}
		return r
	case *types.Array:
		x, y := a.(arrayV), b.(arrayV)
		var r value = true
		for i := range x {
			if r = m.andV(r, m.deepEqual(u.Elem(), x[i], y[i], depth+1)); r == false {
				return false
			}
		}
		return r
	case *types.Struct:
		x, y := a.(structV), b.(structV)
		var r value = true
		for i := range x {
			if r = m.andV(r, m.deepEqual(u.Field(i).Type(), x[i], y[i], depth+1)); r == false {
				return false
			}
		}
		return r
	case *types.Pointer:
		x, ok := a.(*value)
		y, ok2 := b.(*value)
		if !ok || !ok2 {
			m.unsupported("reflect.DeepEqual of symbolic pointers")
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return m.deepEqual(u.Elem(), m.load(x), m.load(y), depth+1)
	case *types.Interface:
		x, y := a.(ifaceV), b.(ifaceV)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !identical(x.t, y.t) {
			return false
		}
		return m.deepEqual(x.t, x.v, y.v, depth+1)
	case *types.Map:
		x, _ := a.(*mapV)
		y, _ := b.(*mapV)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == y {
			return true
		}
		if x.n != y.n {
			return false
		}
		m.traceMap(x, false)
		var r value = true
		for _, e := range x.ents {
			if !e.live {
				continue
			}
			f := m.mapFind(y, e.k, false)
			if f == nil {
				return false
			}
			if r = m.andV(r, m.deepEqual(u.Elem(), e.v, f.v, depth+1)); r == false {
				return false
			}
		}
		return r
	case *types.Signature:
		return isNilVal(a) && isNilVal(b)
	}
	return m.equals(t, a, b)
}
