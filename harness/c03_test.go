package jsonfmt_test

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
)

func c03want(s []byte) string {
	out := []byte{'"'}
	for _, b := range s {
		switch {
		case b == '"' || b == '\\':
			out = append(out, '\\', b)
		case b == '\n':
			out = append(out, '\\', 'n')
		case b == '\r':
			out = append(out, '\\', 'r')
		case b == '\t':
			out = append(out, '\\', 't')
		case b < 32 || b >= 128:
			out = append(out, fmt.Sprintf("\\\\x%02x", b)...)
		default:
			out = append(out, b)
		}
	}
	return string(append(out, '"'))
}
func c03check(space []byte, s []byte) {
	pre := string(space)
	var got []byte
	cp := append([]byte{}, s...)
	if p := vpanics(func() { got = jsonfmt.WriteBytes(append([]byte{}, space...), cp) }); p != "" {
		vcex("literal", "WriteBytes(%q, %q) panics: %s", pre, s, p)
		return
	}
	vcount(fmt.Sprintf("%d", len(s)))
	if string(got) != pre+c03want(s) {
		vcex("literal", "WriteBytes(%q, %q) = %q, want %q", pre, s, got, pre+c03want(s))
		return
	}
	if string(cp) != string(s) {
		vcex("literal", "WriteBytes(%q, %q) changed its input to %q", pre, s, cp)
	}
	if !json.Valid(got[len(pre):]) {
		vcex("literal", "WriteBytes(%q) = %q is not a JSON literal", s, got)
	}
}

func TestVerifC03(t *testing.T) {
	defer vdone(t)
	for _, m := range vmodels() {
		for _, s := range m.seqs() {
			c03check([]byte("x"), s)
		}
	}
	for a := 0; a < 256; a++ {
		c03check(nil, []byte{byte(a)})
		for b := 0; b < 256; b++ {
			c03check([]byte("x"), []byte{byte(a), byte(b)})
		}
	}
	alpha := []byte{'a', '"', '\\', '\n', '\t', 0, 31, 32, 127, 128, 255}
	for _, a := range alpha {
		for _, b := range alpha {
			for _, c := range alpha {
				for _, d := range alpha {
					c03check([]byte("x"), []byte{a, b, c, d})
				}
			}
		}
	}
	r := vrand()
	for i := 0; i < vscale(150000, 3000000); i++ {
		n := r.Intn(40)
		s := make([]byte, n)
		for j := range s {
			switch r.Intn(3) {
			case 0:
				s[j] = alpha[r.Intn(len(alpha))]
			case 1:
				s[j] = byte('a' + r.Intn(26))
			default:
				s[j] = byte(r.Intn(256))
			}
		}
		if i < 3 {
			vsample("%q", s)
		}
		c03check([]byte("pre"), s)
	}
}
