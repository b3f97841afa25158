package jsonfmt_test

import (
	"encoding/json"
	"fmt"
	"testing"
	"unicode/utf8"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
)

func c02want(s string) string {
	out := []byte{'"'}
	for i := 0; i < len(s); i++ {
		b := s[i]
		switch {
		case b == '"' || b == '\\':
			out = append(out, '\\', b)
		case b == '\n':
			out = append(out, '\\', 'n')
		case b == '\r':
			out = append(out, '\\', 'r')
		case b == '\t':
			out = append(out, '\\', 't')
		case b < 32:
			out = append(out, fmt.Sprintf("\\u%04x", b)...)
		default:
			out = append(out, b)
		}
	}
	return string(append(out, '"'))
}
func c02check(space []byte, s string) {
	pre := string(space)
	var got []byte
	if p := vpanics(func() { got = jsonfmt.WriteString(append([]byte{}, space...), s) }); p != "" {
		vcex("literal", "WriteString(%q, %q) panics: %s", pre, s, p)
		return
	}
	vcount(fmt.Sprintf("%d", len(s)))
	if string(got) != pre+c02want(s) {
		vcex("literal", "WriteString(%q, %q) = %q, want %q", pre, s, got, pre+c02want(s))
		return
	}
	if utf8.ValidString(s) {
		var back string
		if err := json.Unmarshal(got[len(pre):], &back); err != nil || back != s {
			vcex("literal", "WriteString(%q) = %q does not decode to the same string (%v, %q)", s, got, err, back)
		}
	}
}

func TestVerifC02(t *testing.T) {
	defer vdone(t)
	for _, m := range vmodels() {
		for _, s := range m.seqs() {
			c02check([]byte("x"), string(s))
		}
	}
	for a := 0; a < 256; a++ {
		c02check(nil, string([]byte{byte(a)}))
		for b := 0; b < 256; b++ {
			c02check([]byte("x"), string([]byte{byte(a), byte(b)}))
		}
	}
	alpha := []byte{'a', '"', '\\', '\n', '\t', 0, 31, 32, 127, 128, 255}
	for _, a := range alpha {
		for _, b := range alpha {
			for _, c := range alpha {
				for _, d := range alpha {
					c02check([]byte("x"), string([]byte{a, b, c, d}))
				}
			}
		}
	}
	r := vrand()
	for i := 0; i < vscale(150000, 3000000); i++ {
		n := r.Intn(40)
		s := make([]byte, n)
		for j := range s {
			switch r.Intn(3) {
			case 0:
				s[j] = alpha[r.Intn(len(alpha))]
			case 1:
				s[j] = byte('a' + r.Intn(26))
			default:
				s[j] = byte(r.Intn(256))
			}
		}
		if r.Intn(2) == 0 {
			s = []byte(string([]rune(string(s))))
		}
		if i < 3 {
			vsample("%q", s)
		}
		c02check([]byte("pre"), string(s))
	}
}
