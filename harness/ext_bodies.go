package main

import (
	"math/big"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// bodies of number extensions: own, with padding, cut, of other versions
func genNumberBody(r *RNG, tag byte) []byte {
	var b []byte
	switch r.Intn(6) {
	case 0:
		b = r.Bytes(r.Intn(12))
	case 1:
		b = []byte{2, 0, 0, byte(r.U64())}
	default:
		b = gobInt(new(big.Int).SetBytes(r.Bytes(r.Intn(20))))
		if r.Bool() {
			b[0] |= 1
		}
		if r.P(1, 4) {
			b = append([]byte{b[0], 0, 0}, b[1:]...)
		}
	}
	if tag == 2 {
		b = append(be32(nil, []uint64{0, 1, 0xffffffff, 0x7fffffff, 0x80000000, r.U64() & 0xffffffff}[r.Intn(6)]), b...)
	}
	if r.P(1, 5) {
		b = mutate(r, b)
	}
	if r.P(1, 6) && len(b) > 0 {
		b = b[:r.Intn(len(b))]
	}
	return b
}

func init() {
	addSection("C24", Section{Name: "extension-bodies", N: n(15000, 500000), Run: func(c *Case) {
		tag := byte(1 + c.Intn(2))
		body := genNumberBody(c.RNG, tag)
		doc := encExt(nil, tag, body, nil)
		c.Note("body %x of a number extension %d", body, tag)
		want, accepted := decodings(c, doc)
		in := append(make([]byte, 0, len(body)+9), body...)
		var got value.Value
		var err error
		if p := try(func() {
			if tag == 1 {
				var x *big.Int
				if x, err = value.UnpackBigInt(in); err == nil {
					got = value.BigInt(x)
				}
			} else {
				var x decimal.Decimal
				if x, err = value.UnpackDecimal(in); err == nil {
					got = value.Decimal(x)
				}
			}
		}); p != nil {
			c.Failf("unpacking the body by itself panics: %v", p)
		}
		c.sameBytes(in, body, "the body after unpacking it")
		c.Check((err == nil) == accepted, "the body by itself: %v, the whole extension accepted: %v", err, accepted)
		if ref, rerr := refExt(tag, body); rerr == nil {
			c.Check(err == nil, "the body denotes %v and is refused: %v", ref, err)
			for i := range in {
				in[i] ^= 0xff
			}
			c.same(mnorm(project(got)), mnorm(ref), "the body by itself")
			c.same(want, mnorm(ref), "the whole extension")
			c.Count("body-accepted", 1)
		} else {
			c.Check(err != nil, "the body denotes no number and gives %v", got)
			c.Count("body-rejected", 1)
		}
		c.DistinctB(doc)
		if c.P(1, 8) {
			// and as one of many elements
			k, after := 1+c.Intn(20), c.Intn(3)
			if c.P(1, 4) {
				k = 1 << uint(5+c.Intn(6))
			}
			form := c.Intn(3)
			big := encHeader(nil, k+1+after, 15, []byte{0x90, 0x80, 0x80}[form], 0, []byte{0xdc, 0xde, 0xde}[form], []byte{0xdd, 0xdf, 0xdf}[form], nil)
			for i := 0; i <= k+after; i++ {
				switch form {
				case 1:
					big = append(big, 0xa3, byte('a'+i>>12), byte('0'+i>>6&63), byte('0'+i&63))
				case 2:
					big = append(big, 0xcd, byte(i>>8), byte(i))
				}
				if i == k {
					big = append(big, doc...)
				} else {
					big = append(big, byte(i&127))
				}
			}
			_, all := decodings(c, big)
			c.Check(all == accepted, "the body alone is accepted: %v, as element %d of %d: %v", accepted, k, k+1+after, all)
			c.Count("body-among-others", 1)
		}
	}})
	p := props["C24"]
	p.Needs = append(p.Needs, "body-accepted", "body-rejected", "body-among-others")
}

func refExt(tag byte, body []byte) (*MV, error) {
	if tag == 1 {
		x, err := ungob(body)
		if err != nil {
			return nil, err
		}
		return mBig(x), nil
	}
	if len(body) < 4 {
		return nil, errForm
	}
	x, err := ungob(body[4:])
	if err != nil {
		return nil, err
	}
	return mDec(x, int32(uint32(body[0])<<24|uint32(body[1])<<16|uint32(body[2])<<8|uint32(body[3]))), nil
}
