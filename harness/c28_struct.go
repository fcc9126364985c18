package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"

	"github.com/codeallergy/value"
)

// handSchema describes a struct type the way its tags do. ParseStruct is
// exported together with the schema types, so both can be of the user's making.
func handSchema(t reflect.Type, known map[reflect.Type]*value.Schema) *value.Schema {
	if s := known[t]; s != nil {
		return s
	}
	s := &value.Schema{Fields: map[int]*value.Field{}}
	known[t] = s
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag, _ := strconv.Atoi(f.Tag.Get("tag"))
		rep, _ := strconv.ParseBool(f.Tag.Get("repeated"))
		x := &value.Field{FieldNum: i, FieldType: f.Type, FieldName: f.Name, Repeated: rep, Tag: tag}
		et := f.Type
		if et.Kind() == reflect.Slice {
			x.Array, et = true, et.Elem()
		}
		if et.Kind() == reflect.Ptr {
			x.Struct, x.FieldSchema = true, handSchema(et.Elem(), known)
		}
		s.Fields[tag] = x
		s.SortedFields = append(s.SortedFields, x)
	}
	sort.Slice(s.SortedFields, func(i, j int) bool { return s.SortedFields[i].Tag < s.SortedFields[j].Tag })
	return s
}

func structDoc(c *Case) (reflect.Type, *sNode, []byte, *value.Schema) {
	var typ reflect.Type
	depth := 1
	if c.P(1, 4) {
		typ = ringKits[c.Intn(len(ringKits))][c.Intn(3)]
		depth = 3
	} else {
		typ = genStructType(c.RNG, 1+c.Intn(2))
	}
	nd := genSNode(c.RNG, typ, depth)
	nd.fill(c, reflect.New(typ).Elem())
	var st *Style
	if c.Bool() {
		st = foreignStyle(c.RNG)
	}
	return typ, nd, nd.encode(c.RNG, st), handSchema(typ, map[reflect.Type]*value.Schema{})
}

func init() {
	addSection("C28", Section{Name: "struct-sources", N: n(5000, 150000), Run: func(c *Case) {
		typ, nd, b, sch := structDoc(c)
		own := c.Bool()
		toks := tokensOf(c, b, own)
		if own && hasU64(toks) {
			return
		}
		c.Note("a struct from a source of our own: %s", hexShort(b))
		s := &source{toks: toks}
		p := reflect.New(typ)
		err := value.ParseStruct(s, s, p.Elem(), sch)
		c.Check(err == nil && s.bad == "", "ParseStruct from a source of our own: %v %s", err, s.bad)
		c.Check(s.next == len(toks), "ParseStruct took %d of %d tokens", s.next, len(toks))
		nd.compareLoose(c, p.Elem())
		q := reflect.New(typ)
		err = value.ParseStruct(value.MessageUnpacker(b, c.Bool()), value.MessageParser(), q.Elem(), sch)
		c.Check(err == nil, "ParseStruct from bytes: %v", err)
		nd.compareLoose(c, q.Elem())
		rd, how := wrapReader(c.RNG, &bareReader{b: b})
		q = reflect.New(typ)
		err = value.ParseStruct(value.MessageReader(rd), value.MessageParser(), q.Elem(), sch)
		c.Check(err == nil, "ParseStruct from a reader (%s): %v", how, err)
		nd.compareLoose(c, q.Elem())
		c.Count("structs-parsed", 1)
		c.DistinctB(b)
	}})
	addSection("C28", Section{Name: "struct-faults", N: n(12000, 300000), Run: func(c *Case) {
		typ, _, b, sch := structDoc(c)
		toks := tokensOf(c, b, true)
		if hasU64(toks) {
			return
		}
		f := fault(1 + c.Intn(6))
		var at []int
		for i, t := range toks {
			pay := hasPayload(&toks[i]) && len(t.payload) > 0
			if (f == fRead || f == fShort) && !pay || f == fParser && t.f == value.NilToken {
				continue
			}
			at = append(at, i)
		}
		if len(at) == 0 {
			return
		}
		s := &source{toks: toks, fault: f, at: at[c.Intn(len(at))], err: genFault(c.RNG)}
		if c.P(1, 3) { // lists and maps announce themselves rarely
			var heads []int
			for _, i := range at {
				if toks[i].f == value.ListHeader || toks[i].f == value.MapHeader {
					heads = append(heads, i)
				}
			}
			if len(heads) > 0 {
				s.at = heads[c.Intn(len(heads))]
			}
		}
		s.format = []value.Format{-1, 12, 13, 99, 1 << 40, math.MinInt64}[c.Intn(6)]
		c.Note("%s at token %d (%s) of a struct %s", faultNames[f], s.at, formatName(toks[s.at].f), hexShort(b))
		err := value.ParseStruct(s, s, reflect.New(typ).Elem(), sch)
		c.Check(s.bad == "", "%s", s.bad)
		c.Check(s.hit, "token %d was not reached", s.at)
		c.Check(err != nil, "%s at token %d is not reported", faultNames[f], s.at)
		c.Check(s.next <= s.at+1, "after %s at token %d the source is still asked, up to %d", faultNames[f], s.at, s.next)
		c.Count(fmt.Sprintf("struct-faults:%d", f), 1)
		c.Distinct(fnv64(string(b)) ^ uint64(f)<<32 ^ uint64(s.at))
	}})
	addSection("C28", Section{Name: "struct-lies", N: n(12000, 300000), Run: func(c *Case) {
		typ, _, b, sch := structDoc(c)
		toks := tokensOf(c, b, false)
		var at []int
		for i, t := range toks {
			if t.f != value.NilToken {
				at = append(at, i)
			}
		}
		i := at[c.Intn(len(at))]
		hdr := lyingHeader(c, toks[i].f)
		toks[i].header = hdr
		c.Note("token %d of the struct %s, a %s, has the header %x", i, hexShort(b), formatName(toks[i].f), hdr)
		err := value.ParseStruct(&liar{toks: toks}, value.MessageParser(), reflect.New(typ).Elem(), sch)
		c.Check(err != nil, "a %s with the header %x is not reported", formatName(toks[i].f), hdr)
		c.Count("struct-lies", 1)
		c.Distinct(fnv64(string(b)) ^ fnv64(string(hdr)))
	}})
	p := props["C28"]
	p.Needs = append(p.Needs, "structs-parsed", "struct-lies", "struct-faults:1", "struct-faults:2", "struct-faults:3", "struct-faults:4", "struct-faults:5", "struct-faults:6")
}
