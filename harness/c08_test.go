package parse_test

import (
	"errors"
	"fmt"
	"io"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/v2pro/plz/parse"
)

var c08broken = errors.New("broken")

type c08op struct {
	kind string
	n    int
}

// c08run performs the operations on a source delivering s and compares every answer with the
// stream of bytes itself.
func c08run(s string, ops []c08op, how string, src *parse.Source, endErr error) (problem string) {
	pos := 0
	rest := func() string { return s[pos:] }
	eof := func() bool { return pos == len(s) }
	for i, op := range ops {
		at := fmt.Sprintf("op %d %s(%d) at offset %d", i, op.kind, op.n, pos)
		switch op.kind {
		case "Peek":
			p := src.Peek()
			if len(p) > len(rest()) || string(p) != rest()[:len(p)] {
				return fmt.Sprintf("%s = %q, the stream goes on with %q", at, p, rest())
			}
			if len(p) == 0 && !eof() {
				return fmt.Sprintf("%s is empty although %q is left", at, rest())
			}
		case "PeekN":
			if eof() {
				continue
			}
			p, err := src.PeekN(op.n)
			want := op.n
			if want > len(rest()) {
				want = len(rest())
			}
			if string(p) != rest()[:want] {
				return fmt.Sprintf("%s = %q, want %q", at, p, rest()[:want])
			}
			if (err == nil) != (want == op.n) {
				return fmt.Sprintf("%s reports error %v with %d bytes left", at, err, len(rest()))
			}
		case "PeekRune":
			if eof() {
				continue
			}
			r, n := src.PeekRune()
			wr, wn := utf8.DecodeRuneInString(rest())
			if r != wr || n != wn {
				return fmt.Sprintf("%s = %q, %d, want %q, %d", at, r, n, wr, wn)
			}
		case "ConsumeN":
			src.ConsumeN(op.n)
			pos += op.n
			if pos > len(s) {
				pos = len(s)
			}
		case "Consume":
			k := len(src.Peek())
			src.Consume()
			pos += k
		case "Consume1":
			if eof() {
				continue
			}
			if src.Error() != nil {
				continue
			}
			src.Consume1(s[pos])
			pos++
		}
		err := src.Error()
		if len(src.Peek()) == 0 && (!eof() || err == nil) {
			return fmt.Sprintf("after %s nothing is buffered, error is %v, %q is left", at, err, rest())
		}
		if err != nil && (err != endErr || !eof()) {
			return fmt.Sprintf("after %s the error is %v with %q left", at, err, rest())
		}
		if len(src.Peek()) > len(rest()) || string(src.Peek()) != rest()[:len(src.Peek())] {
			return fmt.Sprintf("after %s the buffer holds %q, the stream goes on with %q", at, src.Peek(), rest())
		}
	}
	if got := c07rest(src); got != rest() {
		return fmt.Sprintf("in the end %q is left, want %q", got, rest())
	}
	if src.Error() != endErr {
		return fmt.Sprintf("in the end the error is %v, want %v", src.Error(), endErr)
	}
	return ""
}

func TestVerifC08(t *testing.T) { defer vdone(t); c08main([]string{"Peek", "PeekN", "ConsumeN", "Consume", "Consume1", "PeekN", "ConsumeN"}) }
func TestVerifC09(t *testing.T) { defer vdone(t); c08main([]string{"PeekRune", "PeekN", "ConsumeN", "PeekRune", "Consume"}) }

func c08main(kinds []string) {
	r := vrand()
	texts := []string{"", "a", "ab", "hello, world", "\xff\xfe", "中文字符 ab", "a\xe4\xb8", "😀x😀", "\xf0\x9f\x98", "é", "\xc3", "\xed\xa0\x80\xf4\x90\x80\x80", "\xe0\x80\x80\xe1\x80"}
	for _, m := range vmodels() {
		for _, s := range m.seqs() {
			texts = append(texts, string(s))
		}
	}
	// every first byte with every kind of follow-up
	for b := 0x80; b < 0x100; b++ {
		texts = append(texts, string([]byte{byte(b)}), string([]byte{byte(b), 0x80}), string([]byte{byte(b), 0x9f, 0xbf}), string([]byte{byte(b), 0xa0, 0x80, 0x80, 'x'}), string([]byte{byte(b), 0x90, 0xbf, 'x', 0x80}))
	}
	seq := func(s string) (ops []c08op) {
		for k := r.Intn(12) + 1; k > 0; k-- {
			op := c08op{kinds[r.Intn(len(kinds))], r.Intn(7)}
			if r.Intn(6) == 0 {
				op.n = r.Intn(len(s) + 4)
			}
			ops = append(ops, op)
		}
		return
	}
	rounds := vscale(40, 400)
	for ti, s := range texts {
		n := rounds
		if ti >= 13 {
			n = vscale(3, 30)
		}
		for k := 0; k < n; k++ {
			ops := seq(s)
			c08one(s, ops, r.Intn(8)+1, []int{r.Intn(4) + 1, r.Intn(4), r.Intn(3) + 1}, r.Intn(2) == 0, r.Intn(3) == 0)
		}
	}
	alphabet := []string{"a", "b", "é", "中", "😀", "\x80", "\xc3", "\xe4\xb8", "\xf0\x9f", " "}
	for k := 0; k < vscale(6000, 200000); k++ {
		s := ""
		for j := r.Intn(9); j > 0; j-- {
			s += alphabet[r.Intn(len(alphabet))]
		}
		c08one(s, seq(s), r.Intn(8)+1, []int{r.Intn(4) + 1, r.Intn(4), r.Intn(3) + 1}, r.Intn(2) == 0, r.Intn(3) == 0)
	}
	vsample("random operation sequences over %d fixed and random texts, buffers of 1..8 bytes, readers returning 0..4 bytes at a time", len(texts))
}

func c08one(s string, ops []c08op, bs int, sizes []int, both, broken bool) {
	endErr := io.EOF
	if broken {
		endErr = c08broken
	}
	if len(s) == 0 {
		src, err := parse.NewSource(&c07reader{sizes: sizes, end: endErr}, make([]byte, bs))
		if src != nil || err != endErr {
			vcex("NewSource", "NewSource over an empty reader = %v, %v", src, err)
		}
	}
	if p := vguard(20*time.Second, func() {
		src := parse.NewSourceString(s)
		vcount("")
		if p := c08run(s, ops, "string", src, io.EOF); p != "" {
			vcex("string", "string source over %q, operations %v: %s", s, ops, p)
		}
	}); p != "" {
		vcex("string", "string source over %q, operations %v: %s", s, ops, p)
	}
	if len(s) == 0 {
		return
	}
	how := fmt.Sprintf("buffer %d, reads of %v, error with data %v, ends with %v", bs, sizes, both, endErr)
	if p := vguard(20*time.Second, func() {
		src, err := parse.NewSource(&c07reader{data: []byte(s), sizes: sizes, end: endErr, both: both}, make([]byte, bs))
		if err != nil || src == nil {
			vcex("NewSource", "NewSource over a reader of %q (%s) = %v, %v", s, how, src, err)
			return
		}
		vcount(fmt.Sprintf("%d/%d/%v/%v", bs, len(s), both, broken))
		if p := c08run(s, ops, how, src, endErr); p != "" {
			vcex("reader", "source over a reader of %q (%s), operations %v: %s", s, how, ops, p)
		}
	}); p != "" {
		vcex("reader", "source over a reader of %q (%s), operations %v: %s", s, how, ops, p)
	}
}
