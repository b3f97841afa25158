package msgfmt_test

import (
	"fmt"
	"testing"

	"github.com/v2pro/plz/msgfmt"
)

func c13want(s []byte) string {
	out := []byte{}
	for _, b := range s {
		switch {
		case b == '\\':
			out = append(out, '\\', b)
		case b == '\n':
			out = append(out, '\\', 'n')
		case b == '\r':
			out = append(out, '\\', 'r')
		case b == '\t':
			out = append(out, '\\', 't')
		case b < 32 || b >= 128 || b == '|':
			out = append(out, fmt.Sprintf("\\x%02x", b)...)
		default:
			out = append(out, b)
		}
	}
	return string(out)
}
func c13check(space []byte, s []byte) {
	pre := string(space)
	var got string
	cp := append([]byte{}, s...)
	if p := vpanics(func() { got = msgfmt.Sprintf(pre+"{x}", "x", cp) }); p != "" {
		vcex("literal", "Sprintf(%q, x, %q) panics: %s", pre+"{x}", s, p)
		return
	}
	vcount(fmt.Sprintf("%d", len(s)))
	if got != pre+c13want(s) {
		vcex("literal", "Sprintf(%q, x, %q) = %q, want %q", pre+"{x}", s, got, pre+c13want(s))
		return
	}
	if string(cp) != string(s) {
		vcex("literal", "Sprintf(%q, x, %q) changed its input to %q", pre+"{x}", s, cp)
	}
}

func TestVerifC13(t *testing.T) {
	defer vdone(t)
	for _, m := range vmodels() {
		for _, s := range m.seqs() {
			c13check([]byte("x"), s)
		}
	}
	for a := 0; a < 256; a++ {
		c13check(nil, []byte{byte(a)})
		for b := 0; b < 256; b++ {
			c13check([]byte("x"), []byte{byte(a), byte(b)})
		}
	}
	alpha := []byte{'a', '|', '"', '\\', '\n', '\t', 0, 31, 32, 127, 128, 255}
	for _, a := range alpha {
		for _, b := range alpha {
			for _, c := range alpha {
				for _, d := range alpha {
					c13check([]byte("x"), []byte{a, b, c, d})
				}
			}
		}
	}
	r := vrand()
	for i := 0; i < vscale(150000, 3000000); i++ {
		n := r.Intn(40)
		s := make([]byte, n)
		for j := range s {
			switch r.Intn(3) {
			case 0:
				s[j] = alpha[r.Intn(len(alpha))]
			case 1:
				s[j] = byte('a' + r.Intn(26))
			default:
				s[j] = byte(r.Intn(256))
			}
		}
		if i < 3 {
			vsample("%q", s)
		}
		c13check([]byte("pre"), s)
	}
}
