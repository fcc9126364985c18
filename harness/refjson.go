package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// jsonCheck walks JSON text token by token against the abstract value.
func jsonCheck(text string, m *MV) (err error) {
	if !json.Valid([]byte(text)) {
		return fmt.Errorf("not valid JSON: %s", quoteShort(text))
	}
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	if err := jsonWalk(d, m); err != nil {
		return err
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Errorf("text after the JSON value")
	}
	return nil
}

// jsonText is what a JSON string can hold of arbitrary bytes.
func jsonText(s string) string { return collapse(string([]rune(s))) }

func collapse(s string) string {
	if !strings.Contains(s, "\ufffd\ufffd") {
		return s
	}
	var b strings.Builder
	prev := false
	for _, r := range s {
		if r == '\ufffd' && prev {
			continue
		}
		prev = r == '\ufffd'
		b.WriteRune(r)
	}
	return b.String()
}

func hexText(x *big.Int) string {
	s := hex.EncodeToString(new(big.Int).Abs(x).Bytes())
	if s == "" {
		s = "0"
	}
	if x.Sign() < 0 {
		return "-0x" + s
	}
	return "0x" + s
}

func expText(e int32) string {
	if e == 0 {
		return ""
	}
	v := int64(e)
	sign := ""
	if v < 0 {
		sign, v = "-", -v
	}
	s := strconv.FormatInt(v, 16)
	if len(s)%2 == 1 {
		s = "0" + s
	}
	return refDelim + sign + s
}

func jsonWalk(d *json.Decoder, m *MV) error {
	t, err := d.Token()
	if err != nil {
		return err
	}
	wantStr := func(want string) error {
		s, ok := t.(string)
		if !ok {
			return fmt.Errorf("token %v (%T) where the string %s was expected", t, t, quoteShort(want))
		}
		if collapse(s) != jsonText(want) {
			return fmt.Errorf("string %s where %s was expected", quoteShort(s), quoteShort(want))
		}
		return nil
	}
	switch m.K {
	case KNil, KNull:
		if t != nil {
			return fmt.Errorf("token %v where null was expected", t)
		}
	case KBool:
		if b, ok := t.(bool); !ok || b != m.B {
			return fmt.Errorf("token %v where %v was expected", t, m.B)
		}
	case KLong:
		x, ok := t.(json.Number)
		if !ok || x.String() != strconv.FormatInt(m.I, 10) {
			return fmt.Errorf("token %v where %d was expected", t, m.I)
		}
	case KDouble:
		f := m.Double()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			if t != nil {
				return fmt.Errorf("token %v where null was expected for %v", t, f)
			}
			return nil
		}
		x, ok := t.(json.Number)
		if !ok {
			return fmt.Errorf("token %v where the number %v was expected", t, f)
		}
		g, err := strconv.ParseFloat(x.String(), 64)
		if err != nil || g != f {
			return fmt.Errorf("number %s where %v was expected", quoteShort(x.String()), f)
		}
	case KBig:
		return wantStr(hexText(m.Big))
	case KDec:
		return wantStr(hexText(m.Big) + expText(m.Exp))
	case KStr:
		return wantStr(m.S)
	case KRaw:
		return wantStr(refBase64 + base64.RawStdEncoding.EncodeToString([]byte(m.S)))
	case KExt:
		return wantStr(refUnknown + refBase64 + base64.RawStdEncoding.EncodeToString([]byte(m.S)))
	case KList:
		if t != json.Delim('[') {
			return fmt.Errorf("token %v where [ was expected", t)
		}
		for i, e := range m.L {
			if !d.More() {
				return fmt.Errorf("array ends after %d of %d elements", i, len(m.L))
			}
			if err := jsonWalk(d, e); err != nil {
				return fmt.Errorf("[%d]: %w", i, err)
			}
		}
		return closing(d, ']')
	case KMap:
		return jsonObj(d, t, len(m.E), func(i int) (string, *MV) { return m.E[i].K, m.E[i].V })
	case KSparse:
		return jsonObj(d, t, len(m.P), func(i int) (string, *MV) { return strconv.Itoa(m.P[i].K), m.P[i].V })
	}
	return nil
}

func closing(d *json.Decoder, c rune) error {
	t, err := d.Token()
	if err != nil || t != json.Delim(c) {
		return fmt.Errorf("token %v where %c was expected", t, c)
	}
	return nil
}

func jsonObj(d *json.Decoder, t json.Token, k int, at func(int) (string, *MV)) error {
	if t != json.Delim('{') {
		return fmt.Errorf("token %v where { was expected", t)
	}
	for i := 0; i < k; i++ {
		if !d.More() {
			return fmt.Errorf("object ends after %d of %d entries", i, k)
		}
		key, v := at(i)
		kt, err := d.Token()
		if err != nil {
			return err
		}
		s, ok := kt.(string)
		if !ok || collapse(s) != jsonText(key) {
			return fmt.Errorf("key %v where %s was expected", kt, quoteShort(key))
		}
		if err := jsonWalk(d, v); err != nil {
			return fmt.Errorf("{%s}: %w", quoteShort(key), err)
		}
	}
	return closing(d, '}')
}

// compactHTML is what encoding/json makes of a Marshaler's output.
func compactHTML(text []byte) ([]byte, error) {
	var a, b bytes.Buffer
	if err := json.Compact(&a, text); err != nil {
		return nil, err
	}
	json.HTMLEscape(&b, a.Bytes())
	return b.Bytes(), nil
}

func b64(s string) string { return base64.RawStdEncoding.EncodeToString([]byte(s)) }

func unb64(s string) string {
	b, err := base64.RawStdEncoding.DecodeString(s)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}
