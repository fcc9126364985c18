package main

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strconv"

	"github.com/codeallergy/value"
)

// ------------------------------------------------------------------ C19

var (
	tValue  = reflect.TypeOf((*value.Value)(nil)).Elem()
	tBool   = reflect.TypeOf((*value.Bool)(nil)).Elem()
	tNumber = reflect.TypeOf((*value.Number)(nil)).Elem()
	tString = reflect.TypeOf((*value.String)(nil)).Elem()
	tExt    = reflect.TypeOf((*value.Extension)(nil)).Elem()
	tList   = reflect.TypeOf((*value.List)(nil)).Elem()
	tMap    = reflect.TypeOf((*value.Map)(nil)).Elem()
	ifaces  = []reflect.Type{tValue, tBool, tNumber, tString, tExt, tList, tMap}
)

func genTag(r *RNG) int {
	switch r.Intn(6) {
	case 0:
		return []int{0, 31, 32, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 31, -1, -32, -33, -128, -129, -32769}[r.Intn(18)]
	default:
		return 1 + r.Intn(24)
	}
}

func structTag(r *RNG, tag int, rep string) reflect.StructTag {
	num := strconv.Itoa(tag)
	if tag >= 0 && r.P(1, 12) {
		num = []string{"+", "0", "00"}[r.Intn(3)] + num
	}
	parts := []string{fmt.Sprintf("tag:%q", num)}
	switch {
	case rep == "true" && r.P(1, 3):
		rep = []string{"1", "t", "T", "TRUE", "True"}[r.Intn(5)]
	case rep == "false" && r.P(1, 2):
		rep = []string{"0", "f", "F", "FALSE", "False"}[r.Intn(5)]
	}
	if rep != "" {
		parts = append(parts, fmt.Sprintf("repeated:%q", rep))
	}
	// tags of other packages
	if r.P(1, 8) {
		parts = append(parts, `json:"tag,omitempty"`)
	}
	if r.P(1, 8) {
		parts = append(parts, `xml:"repeated:true"`)
	}
	s := ""
	for _, i := range r.Perm(len(parts)) {
		if s != "" {
			s += " "
		}
		s += parts[i]
	}
	return reflect.StructTag(s)
}

func genStructFields(r *RNG, depth int) []reflect.StructField {
	k := 1 + r.Intn(6)
	if r.P(1, 10) {
		k = 13 + r.Intn(5)
		if r.P(1, 3) {
			k = 18 + r.Intn(120)
		}
	}
	nested := 0 // wide structs keep few structs of their own: sizes multiply
	var inner []reflect.Type
	used := map[int]bool{}
	var out []reflect.StructField
	for i := 0; i < k; i++ {
		tag := genTag(r)
		for used[tag] {
			tag++
		}
		used[tag] = true
		var t reflect.Type
		rep := ""
		switch r.Intn(8) {
		case 0, 1, 2:
			t = ifaces[r.Intn(len(ifaces))]
			if r.P(1, 12) {
				rep = []string{"false", "true"}[r.Intn(2)] // of no meaning without a slice
			}
		case 3:
			t = reflect.SliceOf(ifaces[r.Intn(len(ifaces))])
			if r.P(1, 12) {
				rep = "false"
			}
		case 4:
			t, rep = reflect.SliceOf(ifaces[r.Intn(len(ifaces))]), "true"
		default:
			if depth <= 0 || k > 6 && nested >= 2 {
				t = tValue
				break
			}
			nested++
			if len(inner) > 0 && r.P(1, 3) {
				t = inner[r.Intn(len(inner))] // one type for several fields
			} else {
				t = reflect.PointerTo(reflect.StructOf(genStructFields(r, depth-1)))
				inner = append(inner, t)
			}
			switch r.Intn(3) {
			case 1:
				t = reflect.SliceOf(t)
			case 2:
				t, rep = reflect.SliceOf(t), "true"
			}
		}
		out = append(out, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: t, Tag: structTag(r, tag, rep)})
	}
	return out
}

func genStructType(r *RNG, depth int) reflect.Type {
	return reflect.StructOf(genStructFields(r, depth))
}

func newStruct(t reflect.Type) interface{} { return reflect.New(t).Interface() }

// sNode is the abstract content of a struct.
type sNode struct {
	typ    reflect.Type
	fields []*sField // in declaration order
}
type sField struct {
	idx   int
	tag   int
	slice bool
	rep   bool
	isNil bool
	vals  []*MV    // value elements (one when not a slice)
	subs  []*sNode // struct elements
	st    bool
}

func genForIface(r *RNG, t reflect.Type) *MV {
	o := GenOpt{Depth: 1 + r.Intn(3), Budget: 2 + r.Intn(10), MaxStr: 40}
	for i := 0; ; i++ {
		m := gen(r, o)
		switch t {
		case tValue, reflect.TypeOf((*XAny)(nil)).Elem():
			return m
		case tBool:
			return mBool(r.Bool())
		case tNumber:
			if isNum(m) {
				return m
			}
			if i > 20 {
				return mLong(genLong(r))
			}
		case tString:
			if m.K == KStr || m.K == KRaw {
				return m
			}
		case tExt:
			return mExt(extTags[r.Intn(len(extTags))], string(r.Bytes(extLens[r.Intn(len(extLens))])))
		case tList:
			if m.K == KList || m.K == KSparse {
				return m
			}
			if i > 30 {
				return mList(mLong(1))
			}
		case tMap:
			if m.K == KMap {
				return m
			}
			if i > 30 {
				return &MV{K: KMap, E: []MEnt{{"k", mLong(1)}}}
			}
		}
	}
}

func parseField(f reflect.StructField, idx int) *sField {
	tag, _ := strconv.Atoi(f.Tag.Get("tag"))
	rep, _ := strconv.ParseBool(f.Tag.Get("repeated"))
	sf := &sField{idx: idx, tag: tag, slice: f.Type.Kind() == reflect.Slice, rep: rep}
	et := f.Type
	if sf.slice {
		et = et.Elem()
	}
	sf.st = et.Kind() == reflect.Ptr
	return sf
}

func genSNode(r *RNG, t reflect.Type, depth int) *sNode {
	nd := &sNode{typ: t}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		sf := parseField(f, i)
		et := f.Type
		if sf.slice {
			et = et.Elem()
		}
		k := 1
		if sf.slice {
			k = r.Intn(5)
			if r.P(1, 10) {
				k = []int{15, 16, 17, 65, 130}[r.Intn(5)]
			}
			if depth > 2 && k > 2 {
				k = 2
			}
		}
		if r.P(1, 4) || depth > 4 && sf.st {
			sf.isNil, k = true, 0
		}
		for j := 0; j < k; j++ {
			if sf.st {
				sf.subs = append(sf.subs, genSNode(r, et.Elem(), depth+1))
			} else {
				sf.vals = append(sf.vals, genForIface(r, et))
			}
		}
		nd.fields = append(nd.fields, sf)
	}
	return nd
}

// fill writes the content into a struct of the type.
func (nd *sNode) fill(c *Case, v reflect.Value) {
	for _, f := range nd.fields {
		if f.isNil {
			continue
		}
		fv := v.Field(f.idx)
		et := fv.Type()
		if f.slice {
			et = et.Elem()
			fv.Set(reflect.MakeSlice(fv.Type(), 0, c.Intn(3)))
		}
		put := func(e reflect.Value) {
			if f.slice {
				fv.Set(reflect.Append(fv, e))
			} else {
				fv.Set(e)
			}
		}
		for i, m := range f.vals {
			x, built := mk(c, m, BuildOpt{})
			f.vals[i] = built
			put(reflect.ValueOf(x))
		}
		for _, s := range f.subs {
			p := reflect.New(et.Elem())
			s.fill(c, p.Elem())
			put(p)
		}
	}
}

// model is what the packed struct denotes.
func (nd *sNode) model() *MV {
	m := &MV{K: KSparse}
	for _, f := range nd.fields {
		if f.isNil {
			continue
		}
		var elems []*MV
		for _, x := range f.vals {
			elems = append(elems, x.wire())
		}
		for _, s := range f.subs {
			elems = append(elems, s.model())
		}
		if f.slice && !f.rep {
			elems = []*MV{{K: KList, L: elems}}
		}
		for _, e := range elems {
			m.P = append(m.P, MItem{f.tag, e})
		}
	}
	sortItems(m.P)
	return m
}

// generic is the model as the generic decoder sees it: an empty map has no
// integer keys to tell it from a map with string keys.
func generic(m *MV) *MV {
	switch m.K {
	case KSparse:
		if len(m.P) == 0 {
			return &MV{K: KMap}
		}
		r := &MV{K: KSparse}
		for _, e := range m.P {
			r.P = append(r.P, MItem{e.K, generic(e.V)})
		}
		return r
	case KList:
		r := &MV{K: KList}
		for _, e := range m.L {
			r.L = append(r.L, generic(e))
		}
		return r
	case KMap:
		r := &MV{K: KMap}
		for _, e := range m.E {
			r.E = append(r.E, MEnt{e.K, generic(e.V)})
		}
		return r
	}
	return m
}

// encode writes the struct with its fields in any order; the elements of a
// repeated field keep theirs but may be interleaved with other fields.
func (nd *sNode) encode(r *RNG, st *Style) []byte {
	type part struct {
		tag  int
		body []byte
	}
	var queues [][]part
	total := 0
	for _, f := range nd.fields {
		if f.isNil {
			continue
		}
		var bodies [][]byte
		for _, x := range f.vals {
			bodies = append(bodies, refEnc(nil, x.wire(), st))
		}
		for _, s := range f.subs {
			bodies = append(bodies, s.encode(r, st))
		}
		var q []part
		if f.slice && !f.rep {
			b := encHeader(nil, len(bodies), 15, 0x90, 0, 0xdc, 0xdd, st)
			for _, x := range bodies {
				b = append(b, x...)
			}
			q = append(q, part{f.tag, b})
		} else {
			for _, x := range bodies {
				q = append(q, part{f.tag, x})
			}
		}
		if len(q) > 0 {
			queues = append(queues, q)
			total += len(q)
		}
	}
	b := encHeader(nil, total, 15, 0x80, 0, 0xde, 0xdf, st)
	for len(queues) > 0 {
		i := r.Intn(len(queues))
		p := queues[i][0]
		b = encInt(b, int64(p.tag), st)
		b = append(b, p.body...)
		if queues[i] = queues[i][1:]; len(queues[i]) == 0 {
			queues = append(queues[:i], queues[i+1:]...)
		}
	}
	return b
}

// compare checks a decoded struct against the content.
func (nd *sNode) compare(c *Case, v reflect.Value, path string) {
	for _, f := range nd.fields {
		fv := v.Field(f.idx)
		p := fmt.Sprintf("%s.%s(tag %d)", path, nd.typ.Field(f.idx).Name, f.tag)
		if f.isNil {
			c.Check(fv.IsNil(), "%s was nil and comes back as %v", p, fv)
			continue
		}
		want := len(f.vals) + len(f.subs)
		if f.slice {
			c.Check(fv.Len() == want, "%s had %d elements and comes back with %d", p, want, fv.Len())
			if want == 0 && !f.rep {
				c.Check(!fv.IsNil(), "%s was an empty slice and comes back nil", p)
			}
		} else {
			c.Check(!fv.IsNil(), "%s comes back nil", p)
		}
		at := func(i int) reflect.Value {
			if f.slice {
				return fv.Index(i)
			}
			return fv
		}
		for i, m := range f.vals {
			e := at(i)
			c.Check(!e.IsNil(), "%s[%d] comes back nil, was %v", p, i, m)
			c.same(project(e.Interface().(value.Value)).wire(), m.wire(), "%s[%d]", p, i)
		}
		for i, s := range f.subs {
			e := at(i)
			c.Check(!e.IsNil(), "%s[%d] comes back nil", p, i)
			s.compare(c, e.Elem(), fmt.Sprintf("%s[%d]", p, i))
		}
		c.Count("fields", 1)
		if f.slice {
			c.Count("slices", 1)
			if f.rep {
				c.Count("repeated", 1)
			}
		}
		if f.st {
			c.Count("inner", 1)
		}
	}
}

func genStructDoc(r *RNG, t reflect.Type) []byte {
	nd := genSNode(r, t, 1)
	if r.Bool() {
		return nd.encode(r, foreignStyle(r))
	}
	return refEncode(nd.model())
}

// permuteType declares the same fields in another order.
func permuteType(r *RNG, t reflect.Type) (reflect.Type, []int) {
	perm := r.Perm(t.NumField()) // new position i holds old field perm[i]
	fs := make([]reflect.StructField, len(perm))
	for i, o := range perm {
		fs[i] = t.Field(o)
		fs[i].Offset, fs[i].Index, fs[i].Anonymous = 0, nil, false
	}
	return reflect.StructOf(fs), perm
}

func structCase(c *Case, typ reflect.Type) {
	structNode(c, typ, genSNode(c.RNG, typ, 0))
}

func structNode(c *Case, typ reflect.Type, nd *sNode) {
	p := reflect.New(typ)
	nd.fill(c, p.Elem())
	want := nd.model()
	c.Note("struct %v holding %v", typ, want)
	c.Sample("%v -> %v", typ, want)
	b, err := value.PackStruct(p.Interface())
	c.Check(err == nil, "PackStruct: %v", err)
	c.sameBytes(b, refEncode(want), "PackStruct")
	nd.compare(c, p.Elem(), "packed struct itself")
	for _, cp := range []bool{false, true} {
		q := reflect.New(typ)
		in := append([]byte{}, b...)
		err = value.UnpackStruct(in, q.Interface(), cp)
		c.Check(err == nil, "UnpackStruct(copy=%v): %v", cp, err)
		nd.compare(c, q.Elem(), "")
		c.sameBytes(in, b, "UnpackStruct changed its input")
		b2, err := value.PackStruct(q.Interface())
		c.Check(err == nil, "PackStruct of the unpacked struct: %v", err)
		c.sameBytes(b2, b, "PackStruct of the unpacked struct")
	}
	// the same contents declared in another order
	typ2, perm := permuteType(c.RNG, typ)
	p2 := reflect.New(typ2)
	for i, o := range perm {
		p2.Elem().Field(i).Set(p.Elem().Field(o))
	}
	b2, err := value.PackStruct(p2.Interface())
	c.Check(err == nil, "PackStruct of %v: %v", typ2, err)
	c.sameBytes(b2, b, "the bytes depend on the declaration order of the fields")
	// fields arriving in any order and any encoding
	for k := 0; k < 2; k++ {
		doc := nd.encode(c.RNG, foreignStyle(c.RNG))
		q := reflect.New(typ)
		err = value.UnpackStruct(doc, q.Interface(), c.Bool())
		c.Check(err == nil, "fields in another order do not unpack: %v (%s)", err, hexShort(doc))
		nd2 := *nd
		nd2.compareLoose(c, q.Elem())
	}
	// generic decoding
	u, err := value.Unpack(b, c.Bool())
	c.Check(err == nil, "generic Unpack of a packed struct: %v", err)
	c.same(project(u), generic(want), "generic decoding of a packed struct")
	c.DistinctB(b)
}

// compareLoose: documents written with shuffled inner maps (sparse lists and
// maps with duplicate keys) carry no order among equal keys.
func (nd *sNode) compareLoose(c *Case, v reflect.Value) {
	for _, f := range nd.fields {
		fv := v.Field(f.idx)
		if f.isNil {
			c.Check(fv.IsNil(), "tag %d was nil and comes back as %v", f.tag, fv)
			continue
		}
		want := len(f.vals) + len(f.subs)
		if f.slice {
			c.Check(fv.Len() == want, "tag %d: %d elements come back as %d", f.tag, want, fv.Len())
		} else {
			c.Check(!fv.IsNil(), "tag %d comes back nil", f.tag)
		}
		at := func(i int) reflect.Value {
			if f.slice {
				return fv.Index(i)
			}
			return fv
		}
		for i, m := range f.vals {
			c.Check(!at(i).IsNil(), "tag %d[%d] comes back nil", f.tag, i)
			c.same(mnorm(project(at(i).Interface().(value.Value))), mnorm(m.wire()), "tag %d[%d]", f.tag, i)
		}
		for i, s := range f.subs {
			c.Check(!at(i).IsNil(), "tag %d[%d] comes back nil", f.tag, i)
			s.compareLoose(c, at(i).Elem())
		}
	}
}

type sRec struct {
	V    value.Value `tag:"1"`
	Next *sRec       `tag:"2"`
	Kids []*sRec     `tag:"3"`
	Reps []*sRec     `tag:"4" repeated:"true"`
}
type sMutA struct {
	N value.Number `tag:"1"`
	B *sMutB       `tag:"2"`
}
type sMutB struct {
	S value.String `tag:"1"`
	A *sMutA       `tag:"2"`
}
type sNoTag struct{ A value.Value }
type sBadTag struct {
	A value.Value `tag:"x"`
}
type sEmptyTag struct {
	A value.Value `tag:""`
}
type sIntField struct {
	A int `tag:"1"`
}
type sIntPtr struct {
	A *int `tag:"1"`
}
type sArr struct {
	A [2]value.Value `tag:"1"`
}
type sArrPtr struct {
	A [2]*hInner `tag:"1"`
}
type sMapField struct {
	A map[string]value.Value `tag:"1"`
}
type sSlice2 struct {
	A [][]value.Value `tag:"1"`
}
type sPtrPtr struct {
	A **hInner `tag:"1"`
}
type sInner struct {
	A hInner `tag:"1"`
}
type sBadInner struct {
	A *sNoTag `tag:"1"`
}
type sBadInnerSlice struct {
	V value.Value  `tag:"1"`
	A []*sIntField `tag:"2"`
}
type sUnexported struct {
	V value.Value `tag:"1"`
	a value.Value `tag:"2"`
}
type sUnexportedStruct struct {
	a *hInner `tag:"2"`
}
type sUnexportedSlice struct {
	a []value.Value `tag:"2"`
}
type sFunc struct {
	F func() `tag:"1"`
}
type sIface struct {
	F interface{} `tag:"1"`
}
type sErrIface struct {
	F error `tag:"1"`
}
type sStrSlice struct {
	F []string `tag:"1"`
}

var unsupported = func() []interface{} {
	i := 5
	in := &hInner{}
	x := value.Long(1)
	s := "str"
	return []interface{}{
		5, "x", hInner{}, sRec{}, &i, &s, []value.Value{x}, &[]value.Value{x}, map[string]value.Value{}, &map[string]value.Value{"a": x},
		&sNoTag{x}, &sBadTag{x}, &sEmptyTag{x}, &sIntField{3}, &sIntPtr{&i}, &sIntPtr{}, &sArr{}, &sArr{[2]value.Value{x, x}}, &sArrPtr{[2]*hInner{in, in}},
		&sMapField{map[string]value.Value{"a": x}}, &sSlice2{[][]value.Value{{x}}}, &sPtrPtr{&in}, &sInner{}, &sBadInner{&sNoTag{x}}, &sBadInner{},
		&sBadInnerSlice{V: x, A: []*sIntField{{1}}},
		&sFunc{func() {}}, &sIface{1}, &sErrIface{}, &sStrSlice{[]string{"a"}}, &in, (func())(nil), make(chan int), struct{ A int }{1}, new(interface{}), new(chan int),
	}
}()

var unexported = []interface{}{
	&sUnexported{V: value.Long(1), a: value.Long(1)}, &sUnexportedStruct{&hInner{}}, &sUnexportedStruct{&hInner{A: value.Utf8("x")}},
	&sUnexportedSlice{[]value.Value{value.Long(1)}}, &sUnexportedSlice{[]value.Value{}},
}

// nilContents: things that are nil where an element is required.
var nilElems = []interface{}{
	&hStruct{Ls: []value.Value{value.True, nil}},
	&hStruct{Ls: []value.Value{nil}},
	&hStruct{Rs: []value.Number{value.Long(1), nil, value.Long(2)}},
	&hStruct{Is: []*hInner{{A: value.Utf8("a")}, nil}},
	&hStruct{Is: []*hInner{nil}},
	&hStruct{Ris: []*hInner{nil, {A: value.Utf8("a")}}},
	&hStruct{Ris: []*hInner{nil}},
	&sRec{Kids: []*sRec{nil}},
	&sRec{Next: &sRec{Kids: []*sRec{{}, nil}}},
	(*hStruct)(nil), (*hInner)(nil), (*sRec)(nil),
}

// wrongKinds: tag of hStruct -> bytes of a wrong kind.
func wrongKind(r *RNG, tag int) []byte {
	o := GenOpt{Depth: 2, Budget: 5, NoHoles: true}
	for {
		m := gen(r, o)
		bad := false
		switch tag {
		case 2:
			bad = m.K != KBool
		case 3, 9:
			bad = !isNum(m)
		case 4:
			bad = m.K != KStr && m.K != KRaw
		case 5:
			bad = m.K != KList && m.K != KSparse
		case 6:
			bad = m.K != KMap
		case 7, 11:
			bad = m.K != KSparse && !(m.K == KMap && len(m.E) == 0)
			if m.K == KMap && len(m.E) > 0 {
				bad = true
			}
			if m.K == KSparse {
				for _, e := range m.P {
					if e.K != 1 && e.K != 2 {
						bad = true
					}
				}
			}
		case 8, 10:
			bad = m.K != KList
			if m.K == KList && tag == 10 {
				for _, e := range m.L {
					if e.K != KSparse && e.K != KMap {
						bad = true
					}
				}
			}
		}
		if bad {
			return refEncode(m)
		}
	}
}

// namesakes: distinct types that all are called main.rec.
var namesakes = []reflect.Type{
	func() reflect.Type {
		type rec struct {
			A value.Value  `tag:"1"`
			B value.Number `tag:"2"`
		}
		return reflect.TypeOf(rec{})
	}(),
	func() reflect.Type {
		type rec struct {
			A value.Value  `tag:"2"`
			B value.Number `tag:"1"`
		}
		return reflect.TypeOf(rec{})
	}(),
	func() reflect.Type {
		type rec struct {
			B []value.String `tag:"1"`
			A []value.Value  `tag:"2" repeated:"true"`
			C value.Bool     `tag:"3"`
		}
		return reflect.TypeOf(rec{})
	}(),
	func() reflect.Type {
		type sub struct {
			A value.Value `tag:"7"`
		}
		type rec struct {
			A *sub   `tag:"1"`
			B []*sub `tag:"5"`
		}
		return reflect.TypeOf(rec{})
	}(),
	func() reflect.Type {
		type sub struct {
			X value.String `tag:"7"`
			A value.Value  `tag:"8"`
		}
		type rec struct {
			A *sub   `tag:"1"`
			B []*sub `tag:"6" repeated:"true"`
		}
		return reflect.TypeOf(rec{})
	}(),
}

// Types a program declares: embedded pointers and interfaces, named slices and
// pointers, interfaces of its own, one inner type in many places.
type (
	XValues  []value.Value
	XStrings []value.String
	XLeaf    struct {
		A value.Value `tag:"1"`
		S XStrings    `tag:"2"`
	}
	XLeafPtr *XLeaf
	XLeaves  []*XLeaf
	XAny     interface{ value.Value }
	XEmbed   struct {
		*XLeaf `tag:"3"`
		N      value.Number `tag:"1"`
	}
	XNamed struct {
		V XValues  `tag:"9"`
		R XValues  `json:"r" tag:"8" repeated:"T"`
		S XStrings `repeated:"0" tag:"7" json:"tag"`
		P XLeafPtr `tag:"6"`
		L XLeaves  `tag:"5"`
		Q XLeaves  `tag:"4" repeated:"1"`
		W XAny     `tag:"3"`
		X []XAny   `tag:"2"`
		Y []XAny   `tag:"+1" repeated:"TRUE"`
	}
	XMany struct {
		A *XLeaf   `tag:"1"`
		B *XLeaf   `tag:"2"`
		C []*XLeaf `tag:"3"`
		D []*XLeaf `tag:"4" repeated:"true"`
		E *XNamed  `tag:"5"`
		F *XEmbed  `tag:"6"`
		G *XNamed  `tag:"007"`
	}
)

var declared = []reflect.Type{
	reflect.TypeOf(XLeaf{}), reflect.TypeOf(XEmbed{}), reflect.TypeOf(XNamed{}), reflect.TypeOf(XMany{}),
}

// samePair: the same identifier with and without a pointer or a slice.
type sWrapA struct {
	V *hInner `tag:"1"`
}
type sWrapB struct {
	V []*hInner `tag:"1"`
}

func genRec(r *RNG, depth int) (*sRec, *MV) {
	s, m := &sRec{}, &MV{K: KSparse}
	add := func(t int, v *MV) { m.P = append(m.P, MItem{t, v}) }
	if r.Bool() {
		k := genLong(r)
		s.V = value.Long(k)
		add(1, mLong(k))
	}
	if depth > 0 {
		if r.Bool() {
			n, x := genRec(r, depth-1)
			s.Next = n
			add(2, x)
		}
		if r.P(1, 3) {
			l := mList()
			s.Kids = []*sRec{}
			for i := r.Intn(3); i > 0; i-- {
				n, x := genRec(r, depth-1)
				s.Kids = append(s.Kids, n)
				l.L = append(l.L, x)
			}
			add(3, l)
		}
		if r.P(1, 3) {
			for i := r.Intn(3); i > 0; i-- {
				n, x := genRec(r, depth-1)
				s.Reps = append(s.Reps, n)
				add(4, x)
			}
		}
	}
	return s, m
}

func init() {
	register(&Prop{
		ID:    "C19",
		Rule:  "a case is a random struct type (reflect.StructOf: interfaces, inner structs, slices, repeated fields, random tags) with random contents: canonical bytes, round trip, permuted declarations, permuted wire order, generic decoding; or one malformed content, unsupported type or nil element; distinct = different packed structs",
		Needs: []string{"fields", "slices", "repeated", "inner", "errors", "bad-content", "namesakes"},
		Sections: []Section{
			{Name: "random-types", N: n(2500, 60000), Run: func(c *Case) { structCase(c, genStructType(c.RNG, 1+c.Intn(3))) }},
			{Name: "fixed-types", N: n(6000, 120000), Run: func(c *Case) {
				ts := []reflect.Type{reflect.TypeOf(hStruct{}), reflect.TypeOf(hInner{}), reflect.TypeOf(sWrapA{}), reflect.TypeOf(sWrapB{})}
				structCase(c, ts[c.Intn(len(ts))])
			}},
			{Name: "declared-types", N: n(800, 20000), Run: func(c *Case) { structCase(c, declared[c.Intn(len(declared))]) }},
			{Name: "namesakes", N: n(1500, 30000), Run: func(c *Case) {
				// every one of them in this process, whichever comes first
				for _, i := range c.Perm(len(namesakes))[:2] {
					structCase(c, namesakes[i])
					c.Count("namesakes", 1)
				}
			}},
			{Name: "recursive-types", N: n(2000, 30000), Run: func(c *Case) {
				s, m := genRec(c.RNG, 1+c.Intn(5))
				c.Note("recursive struct %v", m)
				b, err := value.PackStruct(s)
				c.Check(err == nil, "PackStruct of a recursive struct type: %v", err)
				c.sameBytes(b, refEncode(m), "PackStruct")
				var q sRec
				err = value.UnpackStruct(b, &q, c.Bool())
				c.Check(err == nil, "UnpackStruct: %v", err)
				b2, err := value.PackStruct(&q)
				c.Check(err == nil, "PackStruct again: %v", err)
				c.sameBytes(b2, b, "a recursive struct after a round trip")
				c.DistinctB(b)
				x := &sMutA{N: value.Long(1), B: &sMutB{S: value.Utf8("x"), A: &sMutA{N: value.Long(2)}}}
				b, err = value.PackStruct(x)
				c.Check(err == nil, "PackStruct of mutually recursive types: %v", err)
				var y sMutA
				err = value.UnpackStruct(b, &y, true)
				c.Check(err == nil && y.B != nil && y.B.A != nil && y.B.A.N != nil && y.B.A.N.Long() == 2 && y.B.S.Utf8() == "x" && y.N.Long() == 1, "mutually recursive types come back as %v, %v", y, err)
			}},
			{Name: "unsupported", N: n(len(unsupported), len(unsupported)), Run: func(c *Case) {
				o := unsupported[c.Index]
				c.Note("object of type %T", o)
				_, err := value.PackStruct(o)
				c.Check(err != nil, "PackStruct of the unsupported %T reports no error", o)
				for _, doc := range [][]byte{{0x80}, {0x81, 0x01, 0x05}, {0x81, 0x02, 0x05}, {0x81, 0x02, 0x80}, {0x81, 0x01, 0x91, 0x05}, {0x81, 0x02, 0x91, 0x05}, {0x81, 0x01, 0x92, 0x05, 0x05}} {
					err = value.UnpackStruct(doc, o, c.Bool())
					c.Check(err != nil, "UnpackStruct of %x into the unsupported %T reports no error", doc, o)
				}
				c.Count("errors", 1)
				c.Distinct(uint64(c.Index))
			}},
			{Name: "unexported", N: n(len(unexported), len(unexported)), Run: func(c *Case) {
				// not accessible: neither packed nor set, whatever it is
				o := unexported[c.Index]
				c.Note("object %T", o)
				_, err := value.PackStruct(o)
				c.Check(err != nil, "PackStruct of %T with an unexported field that is set reports no error", o)
				q := reflect.New(reflect.TypeOf(o).Elem()).Interface()
				for _, doc := range [][]byte{{0x81, 0x02, 0x05}, {0x81, 0x02, 0x91, 0x05}, {0x81, 0x02, 0x80}, {0x81, 0x02, 0x81, 0x01, 0xa1, 'x'}, {0x81, 0x02, 0x90}, {0x81, 0x02, 0xc0}} {
					for _, to := range []interface{}{q, o} {
						if _, ok := o.(*sUnexportedStruct); ok && to == o && bytes.Equal(doc, []byte{0x81, 0x02, 0x80}) {
							continue // nothing to set in the struct that is there
						}
						err = value.UnpackStruct(doc, to, c.Bool())
						c.Check(err != nil, "UnpackStruct of %x into %T reports no error", doc, o)
					}
				}
				c.Count("errors", 1)
				c.Distinct(uint64(c.Index))
			}},
			{Name: "nil-elements", N: n(len(nilElems), len(nilElems)), Run: func(c *Case) {
				o := nilElems[c.Index]
				c.Note("object %T %+v", o, o)
				_, err := value.PackStruct(o)
				c.Check(err != nil, "PackStruct of %T %+v with a nil element reports no error", o, o)
				if reflect.ValueOf(o).IsNil() {
					err = value.UnpackStruct([]byte{0x80}, o, false)
					c.Check(err != nil, "UnpackStruct into a nil %T reports no error", o)
				}
				err = value.UnpackStruct([]byte{0x80}, nil, false)
				c.Check(err != nil, "UnpackStruct into nil reports no error")
				c.Count("errors", 1)
				c.Distinct(uint64(c.Index))
			}},
			{Name: "bad-content", N: n(20000, 300000), Run: func(c *Case) {
				tags := []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
				tag := tags[c.Intn(len(tags))]
				bad := wrongKind(c.RNG, tag)
				good := refEncode(gen(c.RNG, GenOpt{Depth: 1, Budget: 3, NoHoles: true}))
				var b []byte
				what := ""
				switch c.Intn(6) {
				case 0:
					what = "a value of the wrong kind"
					b = append(encInt([]byte{0x81}, int64(tag), nil), bad...)
				case 1:
					what = "a value of the wrong kind after a good field"
					b = append(append([]byte{0x82, 0x01}, good...), append(encInt(nil, int64(tag), nil), bad...)...)
				case 2:
					t := int64(12 + c.Intn(1000))
					if c.Bool() {
						t = -int64(c.Intn(500)) - 1
					}
					if c.P(1, 6) {
						t = []int64{1<<32 + 1, 1<<40 + 2, -1 << 63, 1<<63 - 1, 0, 1<<16 + 1, 1<<8 + 1}[c.Intn(7)]
					}
					what = fmt.Sprintf("the unknown tag %d", t)
					b = append(encInt([]byte{0x81}, t, nil), good...)
				case 3:
					what = "a key that is no number"
					k := &MV{K: KNull}
					for isNum(k) || k.K == KNull && c.P(9, 10) {
						k = genScalar(c.RNG, &GenOpt{})
					}
					b = append(append([]byte{0x81}, refEncode(k)...), good...)
				case 4:
					what = "a top level that is no map"
					m := gen(c.RNG, GenOpt{Depth: 1, Budget: 4})
					for m.K == KMap || m.K == KSparse {
						m = genScalar(c.RNG, &GenOpt{})
					}
					b = refEncode(m)
				default:
					what = "an inner element of the wrong kind"
					el := bad
					switch t := []int{7, 10, 11}[c.Intn(3)]; t {
					case 10:
						b = append([]byte{0x81, 10, 0x92, 0x80, 0x81, 0x01}, wrongKind(c.RNG, 4)...)
					default:
						el = wrongKind(c.RNG, 4)
						b = append([]byte{0x81, byte(t), 0x81, 0x01}, el...)
					}
				}
				c.Note("%s: %s", what, hexShort(b))
				var s hStruct
				err := value.UnpackStruct(b, &s, c.Bool())
				c.Check(err != nil, "UnpackStruct accepts %s: %s", what, hexShort(b))
				c.Count("bad-content", 1)
				c.DistinctB(b)
			}},
			{Name: "mutated", N: n(15000, 200000), Run: func(c *Case) {
				typ := reflect.TypeOf(hStruct{})
				if c.P(1, 6) {
					typ = genStructType(c.RNG, 2)
				}
				doc := genStructDoc(c.RNG, typ)
				for i := 0; i < 4; i++ {
					b := mutate(c.RNG, doc)
					q := reflect.New(typ)
					c.Note("struct %v from %s", typ, hexShort(b))
					if err := value.UnpackStruct(b, q.Interface(), c.Bool()); err == nil {
						// whatever was accepted has whole elements
						for j := 0; j < typ.NumField(); j++ {
							if fv := q.Elem().Field(j); fv.Kind() == reflect.Slice {
								for k := 0; k < fv.Len(); k++ {
									c.Check(!fv.Index(k).IsNil(), "field %d has a nil element %d after unpacking", j, k)
								}
							}
						}
						_, err = value.PackStruct(q.Interface())
						c.Check(err == nil, "an unpacked struct does not pack: %v", err)
					}
					c.evals++
				}
			}},
		},
	})
}

var _ = big.NewInt
