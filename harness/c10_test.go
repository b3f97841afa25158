package parse_test

import (
	"fmt"
	"io"
	"testing"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/parse/read"
	"github.com/v2pro/plz/parse/skip"
)

// c10tables: included and excluded classes of the range readers.
var c10tables = []struct {
	name     string
	inc, exc []*unicode.RangeTable
}{
	{"letters", []*unicode.RangeTable{unicode.Letter}, nil},
	{"letters+digits-upper", []*unicode.RangeTable{unicode.Letter, unicode.Digit}, []*unicode.RangeTable{unicode.Upper}},
	{"all-space-punct", nil, []*unicode.RangeTable{unicode.White_Space, unicode.Punct}},
	{"nothing", nil, nil},
	{"digits-letters", []*unicode.RangeTable{unicode.Digit}, []*unicode.RangeTable{unicode.Letter}},
}

func c10in(tables []*unicode.RangeTable, r rune) bool {
	for _, t := range tables {
		if unicode.Is(t, r) {
			return true
		}
	}
	return false
}

// c10prefix: length of the longest prefix of runes satisfying ok.
func c10prefix(s string, ok func(rune) bool) int {
	k := 0
	for k < len(s) {
		r, n := utf8.DecodeRuneInString(s[k:])
		if !ok(r) {
			break
		}
		k += n
	}
	return k
}

func c10check(s string) {
	type fn struct {
		name string
		want int // length of the prefix taken
		call func(*parse.Source) (string, bool)
	}
	bytesPrefix := func(stop string) int {
		for k := 0; k < len(s); k++ {
			for j := 0; j < len(stop); j++ {
				if s[k] == stop[j] {
					return k
				}
			}
		}
		return len(s)
	}
	spaces := 0
	for spaces < len(s) && (s[spaces] == ' ' || s[spaces] >= 9 && s[spaces] <= 13) {
		spaces++
	}
	okn := func(n int, want string) (string, bool) { return fmt.Sprint(n), n == len(want) }
	var fns []fn
	add := func(name string, want int, f func(*parse.Source) (string, bool)) { fns = append(fns, fn{name, want, f}) }
	for _, sp := range []string{"", "pre"} {
		sp := sp
		add("AnyExcept1", bytesPrefix(","), func(src *parse.Source) (string, bool) {
			g := read.AnyExcept1(src, append(make([]byte, 0, len(sp)+2), sp...), ',')
			return string(g), string(g) == sp+s[:bytesPrefix(",")]
		})
		add("AnyExcept2", bytesPrefix(",}"), func(src *parse.Source) (string, bool) {
			g := read.AnyExcept2(src, append(make([]byte, 0, len(sp)+2), sp...), ',', '}')
			return string(g), string(g) == sp+s[:bytesPrefix(",}")]
		})
	}
	add("Space", spaces, func(src *parse.Source) (string, bool) { return okn(skip.Space(src), s[:spaces]) })
	us := c10prefix(s, unicode.IsSpace)
	add("UnicodeSpace", us, func(src *parse.Source) (string, bool) { return okn(skip.UnicodeSpace(src), s[:us]) })
	for _, tb := range []*unicode.RangeTable{unicode.Letter, unicode.Han, unicode.White_Space} {
		tb := tb
		k := c10prefix(s, func(r rune) bool { return unicode.Is(tb, r) })
		add("read.UnicodeRange", k, func(src *parse.Source) (string, bool) {
			g := read.UnicodeRange(src, []rune("p"), tb)
			return string(g), string(g) == "p"+string([]rune(s[:k]))
		})
		add("skip.UnicodeRange", k, func(src *parse.Source) (string, bool) { return okn(skip.UnicodeRange(src, tb), s[:k]) })
	}
	for _, tb := range c10tables {
		tb := tb
		k := c10prefix(s, func(r rune) bool { return !c10in(tb.exc, r) && (len(tb.inc) == 0 || c10in(tb.inc, r)) })
		add("read.UnicodeRanges/"+tb.name, k, func(src *parse.Source) (string, bool) {
			g := read.UnicodeRanges(src, []rune("p"), tb.inc, tb.exc)
			return string(g), string(g) == "p"+string([]rune(s[:k]))
		})
		k2 := c10prefix(s, func(r rune) bool { return !c10in(tb.exc, r) && c10in(tb.inc, r) })
		add("skip.UnicodeRanges/"+tb.name, k2, func(src *parse.Source) (string, bool) {
			return okn(skip.UnicodeRanges(src, tb.inc, tb.exc), s[:k2])
		})
	}
	for _, f := range fns {
		for how, mk := range c07sources(s) {
			src := mk()
			if src == nil {
				continue
			}
			var got, rest string
			var ok bool
			var err error
			p := vguard(20*time.Second, func() {
				got, ok = f.call(src)
				err = src.Error()
				rest = c07rest(src)
			})
			vcount(fmt.Sprintf("%s/%d/%d", f.name, f.want, len(s)))
			switch {
			case p != "":
				vcex(f.name, "%s over %q (%s): %s", f.name, s, how, p)
			case !ok:
				vcex(f.name, "%s over %q (%s) = %q, the longest matching prefix is %q", f.name, s, how, got, s[:f.want])
			case rest != s[f.want:]:
				vcex(f.name, "%s over %q (%s) leaves %q, want %q", f.name, s, how, rest, s[f.want:])
			case err != nil && err != io.EOF || err != nil && rest != "":
				vcex(f.name, "%s over %q (%s) ends with error %v and %q left", f.name, s, how, err, rest)
			}
		}
	}
}

func TestVerifC10(t *testing.T) {
	defer vdone(t)
	texts := []string{"", ",", "a,", "}a", "abc", "abc,d", " \t\v\f\r\n", "  x", "\u00a0\u3000 x", "\u0085", "中文a", "中文，", "Ab1,", "1A", "a\x80b", "\xe4\xb8", "x\xf0\x9f\x98", "a b", "\x08\x0e ", "\x1f", "\u2028z"}
	for _, m := range vmodels() {
		for _, s := range m.seqs() {
			texts = append(texts, string(s))
		}
	}
	for b := 0; b < 256; b++ {
		texts = append(texts, string([]byte{byte(b)}), "a"+string([]byte{byte(b)})+"b", " "+string([]byte{byte(b)})+" ")
	}
	r := vrand()
	alphabet := []string{"a", "B", "7", ",", "}", " ", "\n", "é", "中", "😀", "\x80", "\xe4\xb8", "\u3000", "-"}
	for k := 0; k < vscale(150, 4000); k++ {
		s := ""
		for j := r.Intn(10); j > 0; j-- {
			s += alphabet[r.Intn(len(alphabet))]
		}
		texts = append(texts, s)
	}
	for _, s := range texts {
		c10check(s)
	}
	vsample("%d texts x 20 readers x 41 ways of delivering them", len(texts))
}
