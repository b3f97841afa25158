package parse_test

import (
	"fmt"
	"io"
	"math/big"
	"testing"
	"time"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/parse/read"
)

type c07reader struct {
	data  []byte
	sizes []int
	i     int
	end   error // delivered with the last bytes when together, else after them
	both  bool
}

func (r *c07reader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.end
	}
	n := r.sizes[r.i%len(r.sizes)]
	r.i++
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.both {
		return n, r.end
	}
	return n, nil
}

// c07sources: the same bytes as a string source and through readers cut at various places.
func c07sources(s string) map[string]func() *parse.Source {
	m := map[string]func() *parse.Source{"string": func() *parse.Source { return parse.NewSourceString(s) }}
	for _, bs := range []int{1, 2, 3, 7, 64} {
		for _, both := range []bool{false, true} {
			for k, sizes := range [][]int{{1}, {2, 1, 3}, {64}, {3, 0, 0, 2}} {
				bs, both, sizes := bs, both, sizes
				m[fmt.Sprintf("reader(buf=%d,chunks=%d,errWithData=%v)", bs, k, both)] = func() *parse.Source {
					src, err := parse.NewSource(&c07reader{data: []byte(s), sizes: sizes, end: io.EOF, both: both}, make([]byte, bs))
					if err != nil || src == nil {
						return nil
					}
					return src
				}
			}
		}
	}
	return m
}

// c07rest drains what is left.
func c07rest(src *parse.Source) string {
	var out []byte
	for k := 0; k < 1<<16; k++ {
		out = append(out, src.Peek()...)
		if src.Error() != nil && len(src.Peek()) == 0 {
			break
		}
		src.Consume()
	}
	return string(out)
}

func c07digits(s string) int {
	k := 0
	for k < len(s) && s[k] >= '0' && s[k] <= '9' {
		k++
	}
	return k
}

func c07check(s string) {
	type fn struct {
		name   string
		lo, hi *big.Int
		call   func(*parse.Source) *big.Int
	}
	b := func(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
	fns := []fn{
		{"Uint64", b("0"), b("18446744073709551615"), func(src *parse.Source) *big.Int { return new(big.Int).SetUint64(read.Uint64(src)) }},
		{"Int64", b("-9223372036854775808"), b("9223372036854775807"), func(src *parse.Source) *big.Int { return big.NewInt(read.Int64(src)) }},
		{"Int32", b("-2147483648"), b("2147483647"), func(src *parse.Source) *big.Int { return big.NewInt(int64(read.Int32(src))) }},
		{"Int", b("-9223372036854775808"), b("9223372036854775807"), func(src *parse.Source) *big.Int { return big.NewInt(int64(read.Int(src))) }},
	}
	for _, f := range fns {
		neg := f.name != "Uint64" && len(s) > 0 && s[0] == '-'
		body := s
		if neg {
			body = s[1:]
		}
		k := c07digits(body)
		want := new(big.Int)
		if k > 0 {
			want = b(body[:k])
		}
		if neg {
			want.Neg(want)
		}
		fits := want.Cmp(f.lo) >= 0 && want.Cmp(f.hi) <= 0
		for how, mk := range c07sources(s) {
			src := mk()
			if src == nil {
				vcex("source", "NewSource over %q fails (%s)", s, how)
				continue
			}
			var got *big.Int
			var rest string
			var err error
			p := vguard(20*time.Second, func() {
				got = f.call(src)
				err = src.Error()
				if fits {
					rest = c07rest(src)
				}
			})
			vcount(fmt.Sprintf("%s/%v/%d/%v", f.name, neg, k, fits))
			switch {
			case p != "":
				vcex(f.name, "%s over %q (%s): %s", f.name, s, how, p)
			case !fits && (err == nil || err == io.EOF || got.Sign() != 0):
				vcex(f.name, "%s over %q (%s) = %s, error %v: want 0 and an overflow error", f.name, s, how, got, err)
			case fits && (got.Cmp(want) != 0 || err != nil && err != io.EOF):
				vcex(f.name, "%s over %q (%s) = %s, error %v: want %s", f.name, s, how, got, err, want)
			case fits && rest != body[k:]:
				vcex(f.name, "%s over %q (%s) leaves %q, want %q", f.name, s, how, rest, body[k:])
			}
		}
	}
}

func TestVerifC07(t *testing.T) {
	defer vdone(t)
	for _, m := range vmodels() {
		for _, s := range m.seqs() {
			if len(s) > 0 {
				c07check(string(s))
			}
		}
		for _, n := range m.ints() {
			c07check(n.String())
		}
	}
	edges := []string{"127", "2147483646", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809",
		"18446744073709551609", "18446744073709551610", "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551619", "18446744073709551620", "18446744073709551625", "1844674407370955161", "1844674407370955160", "1844674407370955159", "1844674407370955170",
		"20000000000000000000", "25000000000000000000", "30000000000000000000", "36893488147419103232", "36893488147419103231", "99999999999999999999", "184467440737095516150", "1000000000000000000000000"}
	for d := 1; d <= 22; d++ {
		s := ""
		for k := 0; k < d; k++ {
			s += fmt.Sprint((k + 1) % 10)
		}
		edges = append(edges, s, "9"+s, "1"+s)
	}
	for _, e := range edges {
		for _, pre := range []string{"", "-", "000"} {
			for _, post := range []string{"", ",", "x7", "-1", " "} {
				c07check(pre + e + post)
			}
		}
	}
	for _, s := range []string{"-", "-,", ",", "x1", "--1", "-x", "+1", " 1", "0", "00", "-0", "/9", ":1", "1/", "1:"} {
		c07check(s)
	}
	for c := 0; c < 256; c++ {
		c07check("12" + string([]byte{byte(c)}) + "3")
		c07check(string([]byte{byte(c)}) + "3")
	}
	r := vrand()
	for k := 0; k < vscale(400, 6000); k++ {
		n := r.Intn(24) + 1
		var s []byte
		if r.Intn(2) == 0 {
			s = append(s, '-')
		}
		for j := 0; j < n; j++ {
			s = append(s, byte('0'+r.Intn(10)))
		}
		if r.Intn(2) == 0 {
			s = append(s, byte(r.Intn(256)))
		}
		c07check(string(s))
	}
	vsample("Uint64, Int64, Int32, Int over %d boundary numerals x 15 contexts, all 256 bytes after and before digits", len(edges))
}
