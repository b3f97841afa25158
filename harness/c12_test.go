package msgfmt_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/v2pro/plz/msgfmt"
)

type c12stringer struct{ n int }

func (s c12stringer) String() string { return fmt.Sprintf("<%d>", s.n) }

// c12value renders a value as the message format defines.
func c12value(v interface{}) string {
	switch x := v.(type) {
	case fmt.Stringer:
		return x.String()
	case string:
		return x
	case []byte:
		out := ""
		for _, b := range x {
			switch {
			case b == '\\':
				out += "\\\\"
			case b == '\n':
				out += "\\n"
			case b == '\r':
				out += "\\r"
			case b == '\t':
				out += "\\t"
			case b < 32 || b >= 128 || b == '|':
				out += fmt.Sprintf("\\x%02x", b)
			default:
				out += string(rune(b))
			}
		}
		return out
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func c12space(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' || b == '\v' || b == '\f' }
func c12idc(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// c12render: the message, or ok == false for a format that is not valid for kv.
func c12render(f string, kv []interface{}) (out string, ok bool) {
	for i := 0; i < len(f); {
		if f[i] != '{' {
			out += f[i : i+1]
			i++
			continue
		}
		i++
		for i < len(f) && c12space(f[i]) {
			i++
		}
		st := i
		for i < len(f) && c12idc(f[i]) {
			i++
		}
		id := f[st:i]
		for i < len(f) && c12space(f[i]) {
			i++
		}
		if i >= len(f) {
			return "", false
		}
		var val interface{}
		found := false
		for k := 0; k < len(kv); k += 2 {
			if kv[k].(string) == id {
				val, found = kv[k+1], true
				break
			}
		}
		if !found {
			return "", false
		}
		if f[i] == '}' {
			i++
			out += c12value(val)
			continue
		}
		if f[i] != ',' {
			return "", false
		}
		end := strings.IndexByte(f[i:], '}')
		if end < 0 {
			return "", false
		}
		parts := strings.Split(f[i+1:i+end], ",")
		i += end + 1
		tm, isTime := val.(time.Time)
		if strings.TrimLeft(parts[0], " \t\n\r\v\f") != "goTime" || !isTime {
			return "", false
		}
		layout := time.RFC3339
		if len(parts) > 1 {
			layout = strings.TrimSpace(parts[1])
		}
		out += tm.Format(layout)
	}
	return out, true
}

// c12rewriter prints other messages before it takes the bytes it was given
type c12rewriter struct {
	to bytes.Buffer
	n  int
}

func (w *c12rewriter) Write(p []byte) (int, error) {
	if w.n++; w.n == 1 {
		for i := 0; i < 3; i++ {
			msgfmt.Fprintf(w, "#####{k}#####", "k", "$$$$$$$$$$")
		}
		w.to.Reset()
	}
	return w.to.Write(p)
}

func c12check(f string, kv []interface{}) {
	want, ok := c12render(f, kv)
	vcount(fmt.Sprintf("%v-%d", ok, strings.Count(f, "{")))
	for _, how := range []string{"Sprintf", "Fprintf"} {
		var got string
		p := vguard(5*time.Second, func() {
			if how == "Sprintf" {
				got = msgfmt.Sprintf(f, kv...)
			} else {
				w := &bytes.Buffer{}
				w.WriteString("pre")
				n, err := msgfmt.Fprintf(w, f, kv...)
				got = w.String()
				if err != nil || n != len(got)-3 || !strings.HasPrefix(got, "pre") {
					got = fmt.Sprintf("%q with n=%d err=%v", got, n, err)
				} else {
					got = got[3:]
				}
			}
		})
		if p != "" {
			vcex("message", "%s(%q, %#v): %s", how, f, kv, p)
			return
		}
		if ok && got != want {
			vcex("message", "%s(%q, %#v) = %q, want %q", how, f, kv, got, want)
			return
		}
		if !ok && !(strings.HasPrefix(got, "%! (INVALID FORMAT) ") && strings.Contains(got, "%! (FORMAT ARGS) ")) {
			vcex("invalid", "%s(%q, %#v) = %q, want a report of an invalid format", how, f, kv, got)
			return
		}
	}
}

func c12rval(r *rand.Rand) interface{} {
	vals := []interface{}{"", "x{y}z", "hello\n", 1, -7, int8(-3), uint64(1 << 63), true, false, nil, 1.5, []byte("a|\\\x80\n"), []byte{}, c12stringer{4},
		[]int{1, 2}, []int{}, [2]int{3, 4}, []string{"a", "b"}, []interface{}{1, "a", nil}, struct{ A, B int }{1, 2}, time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC), 100000, int64(-1 << 63)}
	return vals[r.Intn(len(vals))]
}

func TestVerifC12(t *testing.T) {
	defer vdone(t)
	r := vrand()
	keys := []string{"a", "b", "cc", "key_1", "X", "aa", "single_value"}
	n := vscale(20000, 400000)
	for i := 0; i < n; i++ {
		perm := r.Perm(len(keys))
		var kv []interface{}
		for j := 0; j < r.Intn(4); j++ {
			kv = append(kv, keys[perm[j]], c12rval(r))
		}
		if r.Intn(8) == 0 && len(kv) > 0 {
			kv = append(kv, kv[0], c12rval(r))
		}
		f := ""
		switch r.Intn(3) {
		case 0: // any text over the characters that matter
			for j := r.Intn(9); j > 0; j-- {
				f += string("{}{}ab, \n"[r.Intn(9)])
			}
		default:
			for j := r.Intn(5); j > 0; j-- {
				switch r.Intn(4) {
				case 0:
					f += []string{"lit", "}", " é ", "\n", "100%", "\xff"}[r.Intn(6)]
				default:
					f += "{" + []string{"", "", "", " ", "\n "}[r.Intn(5)] + keys[r.Intn(3)] + []string{"", "", "", " "}[r.Intn(4)]
					if r.Intn(6) == 0 {
						f += "," + []string{"goTime", " goTime", "goTime,2006", "goTime, 15:04 ,x", "nope", ""}[r.Intn(6)]
					}
					if r.Intn(20) > 0 {
						f += "}"
					}
				}
			}
		}
		c12check(f, kv)
	}
	for i := 0; i < 200; i++ {
		w := &c12rewriter{}
		msgfmt.Fprintf(w, "{k} and more", "k", i)
		vcount("reentrant")
		if got, want := w.to.String(), fmt.Sprintf("%d and more", i); got != want {
			vcex("owned", "Fprintf(w, \"{k} and more\", \"k\", %d), with a writer that prints other messages first, wrote %q, want %q", i, got, want)
		}
	}
	// the same format with other keys, orders and types
	for i := 0; i < n/10; i++ {
		f := []string{"{a}{b}", "{a}-{a}", "x{b}{a}y", "{a}"}[r.Intn(4)]
		kv := []interface{}{"a", c12rval(r), "b", c12rval(r)}
		if r.Intn(2) == 0 {
			kv[0], kv[2] = kv[2], kv[0]
		}
		c12check(f, kv)
	}
	for i := 0; i < 200; i++ {
		w := &bytes.Buffer{}
		vals := []interface{}{}
		want := ""
		for j := r.Intn(4); j > 0; j-- {
			vals = append(vals, []interface{}{1, "a", nil, true}[r.Intn(4)])
		}
		switch len(vals) {
		case 0:
		case 1:
			want = c12value(vals[0])
		default:
			want = c12value(vals)
		}
		p := vguard(5*time.Second, func() { msgfmt.Fprintln(w, vals...) })
		if p != "" || w.String() != want+"\n" {
			vcex("println", "Fprintln(w, %#v) writes %q, want %q %s", vals, w.String(), want+"\n", p)
		}
	}
}
