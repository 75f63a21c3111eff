package main

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"
)

// ---- virtual file system ----

type vfsNode struct {
	path string
	dir  bool
	full bool // nothing can be written to it
	data value
}

type vfsFile struct {
	n    *vfsNode
	name string
	pos  int
	app  bool // writes go to the end

	closed bool
}

func (f *vfsFile) write(data value) {
	n := strLen(f.n.data)
	if f.app || f.pos == n {
		f.n.data = strCat(f.n.data, data)
		f.pos = strLen(f.n.data)
		return
	}
	old := strBytes(f.n.data)
	for f.pos > len(old) {
		old = append(old, uint64(0))
	}
	end := f.pos + strLen(data)
	b := append(append([]value(nil), old[:f.pos]...), strBytes(data)...)
	if end < len(old) {
		b = append(b, old[end:]...)
	}
	f.n.data = mkStr(b)
	f.pos = end
}

// isStdout tells whether v is the value of os.Stdout or os.Stderr; what is written to
// the former is kept.
func (m *M) isStdout(v value) bool {
	p, _ := v.(*value)
	if p == nil {
		return false
	}
	o, ok := m.pkgVar("os", "Stdout").(*value)
	return ok && o == p
}

func cleanPath(p string) string { return path.Clean(p) }

func (m *M) vfsMkdir(p string) {
	p = cleanPath(p)
	for p != "/" && p != "." {
		if m.vfs[p] == nil {
			m.vfs[p] = &vfsNode{path: p, dir: true, data: ""}
		}
		p = path.Dir(p)
	}
}

func (m *M) vfsPut(p string, data value) {
	p = cleanPath(p)
	m.vfsMkdir(path.Dir(p))
	if n := m.vfs[p]; n != nil && n.full {
		return
	}
	m.vfs[p] = &vfsNode{path: p, data: data}
}

// notExist is the error of an operation on a file that is not there.
func (m *M) notExist(op, p string) value {
	return m.pathError(op, p, 2 /* ENOENT */, "no such file or directory")
}

func (m *M) pathError(op, p string, errno uint64, text string) value {
	t, e := m.L.namedType("io/fs", "PathError"), m.L.namedType("syscall", "Errno")
	if t == nil || e == nil {
		if v, ok := m.pkgVar("io/fs", "ErrNotExist").(ifaceV); ok && v.t != nil && errno == 2 {
			return v
		}
		return m.mkError(op + " " + p + ": " + text)
	}
	c := new(value)
	*c = structV{op, p, ifaceV{e, errno}}
	return ifaceV{types.NewPointer(t), c}
}

func registerIO(L *Loader) {
	N := L.natives
	stat := func(m *M, a []value) value {
		p := m.concStr(a[0])
		n := m.vfs[cleanPath(p)]
		if n == nil {
			return tupleV{ifaceV{}, m.notExist("stat", p)}
		}
		return tupleV{ifaceV{m.L.rtypeType(), &opaque{"finfo", n}}, ifaceV{}}
	}
	N["os.Stat"] = stat
	N["os.Lstat"] = stat
	N["os.ReadFile"] = func(m *M, a []value) value {
		p := m.concStr(a[0])
		n := m.vfs[cleanPath(p)]
		if n == nil || n.dir {
			return tupleV{[]value(nil), m.notExist("open", p)}
		}
		b := strBytes(n.data)
		if b == nil {
			b = []value{}
		}
		return tupleV{b, ifaceV{}}
	}
	N["os.MkdirAll"] = func(m *M, a []value) value {
		p := m.concStr(a[0])
		for d := cleanPath(p); d != "/" && d != "."; d = path.Dir(d) {
			if n := m.vfs[d]; n != nil && !n.dir {
				return m.pathError("mkdir", d, 20, "not a directory")
			}
		}
		m.vfsMkdir(p)
		return ifaceV{}
	}
	N["os.Mkdir"] = N["os.MkdirAll"]
	newFile := func(m *M, p string) value {
		c := new(value)
		*c = &opaque{"file", &vfsFile{n: m.vfs[p], name: p}}
		m.opened++
		return c
	}
	create := func(m *M, p string) value {
		p = cleanPath(p)
		if d := m.vfs[path.Dir(p)]; d == nil || !d.dir {
			return tupleV{(*value)(nil), m.notExist("open", p)}
		}
		if n := m.vfs[p]; n != nil && n.dir {
			return tupleV{(*value)(nil), m.pathError("open", p, 21, "is a directory")}
		}
		m.vfsPut(p, "")
		return tupleV{newFile(m, p), ifaceV{}}
	}
	open := func(m *M, p string) value {
		p = cleanPath(p)
		if m.vfs[p] == nil {
			return tupleV{(*value)(nil), m.notExist("open", p)}
		}
		return tupleV{newFile(m, p), ifaceV{}}
	}
	N["os.Create"] = func(m *M, a []value) value { return create(m, m.concStr(a[0])) }
	N["os.Open"] = func(m *M, a []value) value { return open(m, m.concStr(a[0])) }
	N["os.OpenFile"] = func(m *M, a []value) value {
		p, fl := m.concStr(a[0]), int(m.concInt(a[1]))
		const oCREATE, oTRUNC, oEXCL, oAPPEND = 0x40, 0x200, 0x80, 0x400
		ex := m.vfs[cleanPath(p)] != nil
		switch {
		case ex && fl&oEXCL != 0:
			return tupleV{(*value)(nil), m.pathError("open", p, 17, "file exists")}
		case !ex && fl&oCREATE == 0:
			return tupleV{(*value)(nil), m.notExist("open", p)}
		case !ex || fl&oTRUNC != 0:
			return create(m, p)
		case fl&3 != 0 && m.vfs[cleanPath(p)].dir:
			return tupleV{(*value)(nil), m.pathError("open", p, 21, "is a directory")}
		}
		r := open(m, p)
		if f, ok := r.(tupleV)[0].(*value); ok && f != nil {
			(*f).(*opaque).v.(*vfsFile).app = fl&oAPPEND != 0
		}
		return r
	}
	N["os.WriteFile"] = func(m *M, a []value) value {
		p := m.concStr(a[0])
		if d := m.vfs[path.Dir(cleanPath(p))]; d == nil || !d.dir {
			return m.notExist("open", p)
		}
		b := a[1].([]value)
		if n := m.vfs[cleanPath(p)]; n != nil && n.full && len(b) > 0 {
			return m.pathError("write", p, 28, "no space left on device")
		}
		m.vfsPut(p, mkStr(append([]value(nil), b...)))
		return ifaceV{}
	}
	fileOf := func(m *M, v value) *vfsFile {
		p, _ := v.(*value)
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		o, ok := (*p).(*opaque)
		if !ok || o.kind != "file" {
			m.unsupported("os.File")
		}
		return o.v.(*vfsFile)
	}
	N["(*os.File).WriteString"] = func(m *M, a []value) value {
		if m.isStdout(a[0]) {
			m.stdout = strCat(m.stdout, a[1])
		} else if f := fileOf(m, a[0]); f.n.full && strLen(a[1]) > 0 {
			return tupleV{uint64(0), m.pathError("write", f.name, 28, "no space left on device")}
		} else {
			f.write(a[1])
		}
		return tupleV{i2v(strLen(a[1])), ifaceV{}}
	}
	N["(*os.File).Write"] = func(m *M, a []value) value {
		b := a[1].([]value)
		if m.isStdout(a[0]) {
			m.stdout = strCat(m.stdout, mkStr(append([]value(nil), b...)))
		} else if f := fileOf(m, a[0]); f.n.full && len(b) > 0 {
			return tupleV{uint64(0), m.pathError("write", f.name, 28, "no space left on device")}
		} else {
			f.write(mkStr(append([]value(nil), b...)))
		}
		return tupleV{i2v(len(b)), ifaceV{}}
	}
	N["(*os.File).Read"] = func(m *M, a []value) value {
		f := fileOf(m, a[0])
		b := a[1].([]value)
		if f.n.dir {
			return tupleV{uint64(0), m.pathError("read", f.name, 21, "is a directory")}
		}
		src := strBytes(f.n.data)
		if f.pos >= len(src) && len(b) > 0 {
			return tupleV{uint64(0), m.pkgVar("io", "EOF")}
		}
		n := copy(b, src[f.pos:])
		f.pos += n
		return tupleV{i2v(n), ifaceV{}}
	}
	N["(*os.File).Stat"] = func(m *M, a []value) value {
		return tupleV{ifaceV{m.L.rtypeType(), &opaque{"finfo", fileOf(m, a[0]).n}}, ifaceV{}}
	}
	N["(*os.File).Name"] = func(m *M, a []value) value { return fileOf(m, a[0]).name }
	N["(*os.File).Close"] = func(m *M, a []value) value {
		f := fileOf(m, a[0])
		if f.closed {
			return m.mkError("close " + f.name + ": file already closed")
		}
		f.closed = true
		m.opened--
		return ifaceV{}
	}
	N["(*os.File).Sync"] = func(m *M, a []value) value { fileOf(m, a[0]); return ifaceV{} }
	children := func(m *M, dir string) []*vfsNode {
		var ns []*vfsNode
		for p, n := range m.vfs {
			if p != dir && path.Dir(p) == dir {
				ns = append(ns, n)
			}
		}
		sort.Slice(ns, func(i, j int) bool { return ns[i].path < ns[j].path })
		return ns
	}
	infos := func(m *M, ns []*vfsNode) value {
		out := make([]value, len(ns))
		for i, n := range ns {
			out[i] = ifaceV{m.L.rtypeType(), &opaque{"finfo", n}}
		}
		return out
	}
	N["os.ReadDir"] = func(m *M, a []value) value {
		p := cleanPath(m.concStr(a[0]))
		if n := m.vfs[p]; n == nil || !n.dir {
			return tupleV{[]value(nil), m.notExist("open", p)}
		}
		return tupleV{infos(m, children(m, p)), ifaceV{}}
	}
	N["(*os.File).ReadDir"] = func(m *M, a []value) value {
		f := fileOf(m, a[0])
		if int64(m.concInt(a[1])) > 0 {
			m.unsupported("ReadDir in parts")
		}
		return tupleV{infos(m, children(m, f.n.path)), ifaceV{}}
	}
	N["(*os.File).Readdir"] = N["(*os.File).ReadDir"]
	N["(*os.File).Readdirnames"] = func(m *M, a []value) value {
		f := fileOf(m, a[0])
		if int64(m.concInt(a[1])) > 0 {
			m.unsupported("Readdirnames in parts")
		}
		var out []value
		for _, n := range children(m, f.n.path) {
			out = append(out, path.Base(n.path))
		}
		return tupleV{out, ifaceV{}}
	}
	N["os.Getwd"] = func(m *M, a []value) value { return tupleV{"/zzcwd", ifaceV{}} }
	N["golang.org/x/tools/go/packages.Load"] = func(m *M, a []value) value {
		return tupleV{[]value(nil), m.mkError("no Go package (model)")}
	}
	N["os.Getenv"] = func(m *M, a []value) value { return "" }

	// ---- encoding/binary.Read ----
	N["encoding/binary.Read"] = func(m *M, a []value) value {
		r, order, data := a[0].(ifaceV), a[1].(ifaceV), a[2].(ifaceV)
		pt, ok := data.t.Underlying().(*types.Pointer)
		var size int
		if ok {
			size = fixedSize(pt.Elem())
		} else if sl, ok2 := data.t.Underlying().(*types.Slice); ok2 {
			size = fixedSize(sl.Elem()) * len(data.v.([]value))
		}
		if size <= 0 {
			m.unsupported("binary.Read into %v", data.t)
		}
		buf := make([]value, size)
		for i := range buf {
			buf[i] = uint64(0)
		}
		full := m.L.prog.ImportedPackage("io").Func("ReadFull")
		res := m.callSync(full, []value{r, buf}).(tupleV)
		if e := res[1].(ifaceV); e.t != nil {
			return e
		}
		big := strings.Contains(order.t.String(), "bigEndian")
		if !big && !strings.Contains(order.t.String(), "littleEndian") {
			m.unsupported("byte order %v", order.t)
		}
		pos := 0
		if ok {
			p := data.v.(*value)
			m.store(p, m.decodeFixed(pt.Elem(), buf, &pos, big))
		} else {
			s := data.v.([]value)
			et := data.t.Underlying().(*types.Slice).Elem()
			for i := range s {
				m.store(&s[i], m.decodeFixed(et, buf, &pos, big))
			}
		}
		return ifaceV{}
	}

	// ---- encoding/gob (opaque lossless transport with gob's omission rules) ----
	N["encoding/gob.NewEncoder"] = func(m *M, a []value) value {
		c := new(value)
		*c = &opaque{"gobenc", a[0]}
		return c
	}
	N["encoding/gob.NewDecoder"] = func(m *M, a []value) value {
		c := new(value)
		*c = &opaque{"gobdec", a[0]}
		return c
	}
	N["(*encoding/gob.Encoder).Encode"] = func(m *M, a []value) value {
		w := (*(a[0].(*value))).(*opaque).v.(ifaceV)
		v := a[1].(ifaceV)
		g, err := m.gobEnc(v.t, v.v, true)
		if err != "" {
			return m.mkError("gob: " + err)
		}
		m.blobs = append(m.blobs, gobBlob{v.t, g})
		id := len(m.blobs) - 1
		tok := fmt.Sprintf("\x00GOBBLOB%08d", id)
		f := m.findMethod(w.t, "Write")
		r := m.callSync(f, []value{w.v, strBytes(tok)}).(tupleV)
		return r[1]
	}
	N["(*encoding/gob.Decoder).Decode"] = func(m *M, a []value) value {
		r := (*(a[0].(*value))).(*opaque).v.(ifaceV)
		dst := a[1].(ifaceV)
		f := m.findMethod(r.t, "Read")
		buf := make([]value, 16)
		for i := range buf {
			buf[i] = uint64(0)
		}
		res := m.callSync(f, []value{r.v, buf}).(tupleV)
		if e := res[1].(ifaceV); e.t != nil {
			return e
		}
		s := mkStr(buf)
		str, ok := s.(string)
		n := int(m.concInt(res[0]))
		if !ok || n < 16 || !strings.HasPrefix(str, "\x00GOBBLOB") {
			return m.mkError("gob: invalid data (model)")
		}
		var id int
		fmt.Sscanf(str[8:], "%d", &id)
		if id >= len(m.blobs) {
			return m.mkError("gob: invalid data (model)")
		}
		b := m.blobs[id].(gobBlob)
		pt, ok := dst.t.Underlying().(*types.Pointer)
		if !ok {
			return m.mkError("gob: attempt to decode into a non-pointer")
		}
		p := dst.v.(*value)
		nv, err := m.gobDec(pt.Elem(), b.v, *p)
		if err != "" {
			return m.mkError("gob: " + err)
		}
		m.store(p, nv)
		return ifaceV{}
	}
	_ = sort.Strings
}

func fixedSize(t types.Type) int {
	if w, _, ok := intKind(t); ok {
		b := t.Underlying().(*types.Basic)
		if b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
			return -1
		}
		return int(w) / 8
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			k := fixedSize(u.Field(i).Type())
			if k < 0 {
				return -1
			}
			n += k
		}
		return n
	case *types.Array:
		k := fixedSize(u.Elem())
		if k < 0 {
			return -1
		}
		return k * int(u.Len())
	}
	return -1
}

func (m *M) decodeFixed(t types.Type, buf []value, pos *int, big bool) value {
	if w, _, ok := intKind(t); ok {
		n := int(w) / 8
		e := m.ctx.Const(w, 0)
		for i := 0; i < n; i++ {
			b := m.ctx.Zext(m.toE(buf[*pos+i], 8), w)
			sh := uint64(8 * i)
			if big {
				sh = uint64(8 * (n - 1 - i))
			}
			e = m.ctx.Bin(OBOr, e, m.ctx.Bin(OShl, b, m.ctx.Const(w, sh)))
		}
		*pos += n
		return fromEx(e)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := make(structV, u.NumFields())
		for i := range s {
			s[i] = m.decodeFixed(u.Field(i).Type(), buf, pos, big)
		}
		return s
	case *types.Array:
		s := make(arrayV, u.Len())
		for i := range s {
			s[i] = m.decodeFixed(u.Elem(), buf, pos, big)
		}
		return s
	}
	panic("decodeFixed")
}

type gobBlob struct {
	t types.Type
	v interface{}
}

// gob trees
type gobStruct map[string]interface{}
type gobMap struct{ ks, vs []interface{} }
type gobList []interface{}

// gobEnc builds the transported tree of v; nil means "omitted".
func (m *M) gobEnc(t types.Type, v value, top bool) (interface{}, string) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, _ := v.(*value)
		if p == nil {
			if top {
				return nil, "cannot encode nil pointer of type " + t.String()
			}
			return nil, ""
		}
		return m.gobEnc(u.Elem(), m.load(p), top)
	case *types.Basic:
		if m.tr != nil {
			_ = u
		}
		return v, ""
	case *types.Struct:
		s := v.(structV)
		out := gobStruct{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			if _, ok := f.Type().Underlying().(*types.Signature); ok {
				continue
			}
			x, err := m.gobEnc(f.Type(), s[i], false)
			if err != "" {
				return nil, err
			}
			if x != nil {
				out[f.Name()] = x
			}
		}
		return out, ""
	case *types.Slice:
		s, _ := v.([]value)
		if len(s) == 0 && !top {
			return nil, ""
		}
		out := make(gobList, len(s))
		for i := range s {
			x, err := m.gobEnc(u.Elem(), s[i], false)
			if err != "" {
				return nil, err
			}
			if x == nil {
				if _, ok := u.Elem().Underlying().(*types.Pointer); ok {
					return nil, "encodeReflectValue: nil element"
				}
			}
			out[i] = x
		}
		return out, ""
	case *types.Map:
		mp, _ := v.(*mapV)
		if mp == nil {
			if top {
				return &gobMap{}, ""
			}
			return nil, ""
		}
		m.traceMap(mp, false)
		out := &gobMap{}
		for _, e := range mp.ents {
			if !e.live {
				continue
			}
			k, err := m.gobEnc(u.Key(), e.k, true)
			if err != "" {
				return nil, err
			}
			x, err := m.gobEnc(u.Elem(), e.v, false)
			if err != "" {
				return nil, err
			}
			if x == nil {
				if _, ok := u.Elem().Underlying().(*types.Pointer); ok {
					return nil, "encodeReflectValue: nil element"
				}
			}
			out.ks = append(out.ks, k)
			out.vs = append(out.vs, x)
		}
		return out, ""
	}
	m.unsupported("gob encode of %v", t)
	return nil, ""
}

func (m *M) gobDec(t types.Type, g interface{}, old value) (value, string) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if g == nil {
			if old == nil {
				return (*value)(nil), ""
			}
			return old, ""
		}
		p := new(value)
		z := zero(u.Elem())
		x, err := m.gobDec(u.Elem(), g, z)
		if err != "" {
			return nil, err
		}
		*p = x
		return p, ""
	case *types.Basic:
		if g == nil {
			return old, ""
		}
		switch g.(type) {
		case gobStruct, *gobMap, gobList:
			return nil, "type mismatch"
		}
		return g, ""
	case *types.Struct:
		s := copyVal(old).(structV)
		gs, ok := g.(gobStruct)
		if g == nil {
			return s, ""
		}
		if !ok {
			return nil, "type mismatch"
		}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			n++
			x, ok := gs[f.Name()]
			if !ok {
				continue
			}
			nv, err := m.gobDec(f.Type(), x, s[i])
			if err != "" {
				return nil, err
			}
			s[i] = nv
		}
		return s, ""
	case *types.Slice:
		if g == nil {
			return old, ""
		}
		gl, ok := g.(gobList)
		if !ok {
			return nil, "type mismatch"
		}
		out := make([]value, len(gl))
		for i := range gl {
			nv, err := m.gobDec(u.Elem(), gl[i], zero(u.Elem()))
			if err != "" {
				return nil, err
			}
			out[i] = nv
		}
		return out, ""
	case *types.Map:
		if g == nil {
			return old, ""
		}
		gm, ok := g.(*gobMap)
		if !ok {
			return nil, "type mismatch"
		}
		mp, _ := old.(*mapV)
		if mp == nil {
			mp = m.newMap(u.Key())
		}
		for i := range gm.ks {
			k, err := m.gobDec(u.Key(), gm.ks[i], zero(u.Key()))
			if err != "" {
				return nil, err
			}
			var x value
			if gm.vs[i] == nil {
				x = zero(u.Elem())
			} else {
				x, err = m.gobDec(u.Elem(), gm.vs[i], zero(u.Elem()))
				if err != "" {
					return nil, err
				}
			}
			m.mapSet(mp, k, x)
		}
		return mp, ""
	}
	m.unsupported("gob decode of %v", t)
	return nil, ""
}
