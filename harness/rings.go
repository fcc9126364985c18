package main

import (
	"bytes"
	"reflect"

	"github.com/codeallergy/value"
)

// Struct types that refer to each other in a ring, each ring used once per
// process: what the package learns of a type while it is still busy with the
// other ones must not be used before it is complete.

type ringA[T any] struct {
	V value.Value   `tag:"1"`
	B *ringB[T]     `tag:"2"`
	L []*ringB[T]   `tag:"3"`
	S value.String  `tag:"4"`
	R []value.Value `tag:"7" repeated:"true"`
}

type ringB[T any] struct {
	N value.Number `tag:"3"`
	A *ringA[T]    `tag:"1"`
	C *ringC[T]    `tag:"2"`
	V value.Value  `tag:"9"`
}

type ringC[T any] struct {
	X value.Value `tag:"-1"`
	A []*ringA[T] `tag:"5" repeated:"true"`
	B *ringB[T]   `tag:"6"`
	C *ringC[T]   `tag:"7"`
	Z value.Bool  `tag:"300"`
}

func ringOf[T any]() []reflect.Type {
	return []reflect.Type{reflect.TypeOf(ringA[T]{}), reflect.TypeOf(ringB[T]{}), reflect.TypeOf(ringC[T]{})}
}

var ringKits = [][]reflect.Type{
	ringOf[[0]byte](), ringOf[[1]byte](), ringOf[[2]byte](), ringOf[[3]byte](), ringOf[[4]byte](), ringOf[[5]byte](), ringOf[[6]byte](), ringOf[[7]byte](),
	ringOf[[8]byte](), ringOf[[9]byte](), ringOf[[10]byte](), ringOf[[11]byte](), ringOf[[12]byte](), ringOf[[13]byte](), ringOf[[14]byte](), ringOf[[15]byte](),
	ringOf[[16]byte](), ringOf[[17]byte](), ringOf[[18]byte](), ringOf[[19]byte](), ringOf[[20]byte](), ringOf[[21]byte](), ringOf[[22]byte](), ringOf[[23]byte](),
	ringOf[[24]byte](), ringOf[[25]byte](), ringOf[[26]byte](), ringOf[[27]byte](), ringOf[[28]byte](), ringOf[[29]byte](), ringOf[[30]byte](), ringOf[[31]byte](),
	ringOf[[32]byte](), ringOf[[33]byte](), ringOf[[34]byte](), ringOf[[35]byte](), ringOf[[36]byte](), ringOf[[37]byte](), ringOf[[38]byte](), ringOf[[39]byte](),
	ringOf[[40]byte](), ringOf[[41]byte](), ringOf[[42]byte](), ringOf[[43]byte](), ringOf[[44]byte](), ringOf[[45]byte](), ringOf[[46]byte](), ringOf[[47]byte](),
	ringOf[[48]byte](), ringOf[[49]byte](), ringOf[[50]byte](), ringOf[[51]byte](), ringOf[[52]byte](), ringOf[[53]byte](), ringOf[[54]byte](), ringOf[[55]byte](),
	ringOf[[56]byte](), ringOf[[57]byte](), ringOf[[58]byte](), ringOf[[59]byte](), ringOf[[60]byte](), ringOf[[61]byte](), ringOf[[62]byte](), ringOf[[63]byte](),
	ringOf[[64]byte](), ringOf[[65]byte](), ringOf[[66]byte](), ringOf[[67]byte](), ringOf[[68]byte](), ringOf[[69]byte](), ringOf[[70]byte](), ringOf[[71]byte](),
	ringOf[[72]byte](), ringOf[[73]byte](), ringOf[[74]byte](), ringOf[[75]byte](), ringOf[[76]byte](), ringOf[[77]byte](), ringOf[[78]byte](), ringOf[[79]byte](),
	ringOf[[80]byte](), ringOf[[81]byte](), ringOf[[82]byte](), ringOf[[83]byte](), ringOf[[84]byte](), ringOf[[85]byte](), ringOf[[86]byte](), ringOf[[87]byte](),
	ringOf[[88]byte](), ringOf[[89]byte](), ringOf[[90]byte](), ringOf[[91]byte](), ringOf[[92]byte](), ringOf[[93]byte](), ringOf[[94]byte](), ringOf[[95]byte](),
	ringOf[[96]byte](), ringOf[[97]byte](), ringOf[[98]byte](), ringOf[[99]byte](), ringOf[[100]byte](), ringOf[[101]byte](), ringOf[[102]byte](), ringOf[[103]byte](),
	ringOf[[104]byte](), ringOf[[105]byte](), ringOf[[106]byte](), ringOf[[107]byte](), ringOf[[108]byte](), ringOf[[109]byte](), ringOf[[110]byte](), ringOf[[111]byte](),
	ringOf[[112]byte](), ringOf[[113]byte](), ringOf[[114]byte](), ringOf[[115]byte](), ringOf[[116]byte](), ringOf[[117]byte](), ringOf[[118]byte](), ringOf[[119]byte](),
	ringOf[[120]byte](), ringOf[[121]byte](), ringOf[[122]byte](), ringOf[[123]byte](), ringOf[[124]byte](), ringOf[[125]byte](), ringOf[[126]byte](), ringOf[[127]byte](),
	ringOf[[128]byte](), ringOf[[129]byte](), ringOf[[130]byte](), ringOf[[131]byte](), ringOf[[132]byte](), ringOf[[133]byte](), ringOf[[134]byte](), ringOf[[135]byte](),
	ringOf[[136]byte](), ringOf[[137]byte](), ringOf[[138]byte](), ringOf[[139]byte](), ringOf[[140]byte](), ringOf[[141]byte](), ringOf[[142]byte](), ringOf[[143]byte](),
	ringOf[[144]byte](), ringOf[[145]byte](), ringOf[[146]byte](), ringOf[[147]byte](), ringOf[[148]byte](), ringOf[[149]byte](), ringOf[[150]byte](), ringOf[[151]byte](),
	ringOf[[152]byte](), ringOf[[153]byte](), ringOf[[154]byte](), ringOf[[155]byte](), ringOf[[156]byte](), ringOf[[157]byte](), ringOf[[158]byte](), ringOf[[159]byte](),
}

func init() {
	addSection("C19", Section{Name: "rings", N: n(len(ringKits), len(ringKits)), Run: func(c *Case) {
		// the types of a ring in any order, written or read first
		for _, k := range append(c.Perm(3), c.Perm(3)...) {
			typ := ringKits[c.Index][k]
			nd := genSNode(c.RNG, typ, 2+c.Intn(2))
			p := reflect.New(typ)
			nd.fill(c, p.Elem())
			want := refEncode(nd.model())
			q := reflect.New(typ)
			if c.Bool() {
				b, err := value.PackStruct(p.Interface())
				c.Check(err == nil, "PackStruct of %v: %v", typ, err)
				c.sameBytes(b, want, "PackStruct of %v", typ)
			}
			err := value.UnpackStruct(want, q.Interface(), c.Bool())
			c.Check(err == nil, "UnpackStruct of %v: %v", typ, err)
			b, err := value.PackStruct(q.Interface())
			c.Check(err == nil && bytes.Equal(b, want), "%v read and written again: %v, %s, expected %s", typ, err, hexShort(b), hexShort(want))
			c.Count("rings", 1)
			c.DistinctB(want)
		}
	}})
	props["C19"].Needs = append(props["C19"].Needs, "rings")
	props["C11"].Needs = append(props["C11"].Needs, "rings")
}
