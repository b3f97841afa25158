package jsonfmt

import (
	"bytes"
	"math"
	"math/big"
	"math/rand"
	"regexp"
	"strconv"
	"testing"
	"time"
)

var c04num = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]{0,5}[1-9])?$`)
var c04json = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

func c04check(how string, bits int, v float64, write func(space []byte) []byte, lossy bool) {
	pre := "pre-"
	var out []byte
	if p := vguard(5*time.Second, func() { out = write([]byte(pre)) }); p != "" {
		vcex("float", "%s(%v): %s", how, v, p)
		return
	}
	if !bytes.HasPrefix(out, []byte(pre)) {
		vcex("prefix", "%s(%q, %v) = %q", how, pre, v, out)
		return
	}
	s := string(out[len(pre):])
	if math.IsNaN(v) || math.IsInf(v, 0) {
		if s != "null" {
			vcex("float", "%s(%v) = %q, want null", how, v, s)
		}
		return
	}
	if lossy && math.Abs(v) <= 0x4ffffff {
		if !c04num.MatchString(s) {
			vcex("float", "%s(%v) = %q, not a number with at most six fraction digits and no trailing zeros", how, v, s)
			return
		}
		got, _ := new(big.Rat).SetString(s)
		d := new(big.Rat).Sub(got, new(big.Rat).SetFloat64(v))
		if d.Abs(d).Cmp(big.NewRat(53, 100000000)) > 0 {
			vcex("float", "%s(%v) = %q, off by more than 0.53e-6", how, v, s)
		}
		if (s[0] == '-') != (v < 0) {
			vcex("float", "%s(%v) = %q, wrong sign", how, v, s)
		}
		return
	}
	got, err := strconv.ParseFloat(s, bits)
	if !c04json.MatchString(s) || err != nil || got != v {
		vcex("float", "%s(%v) = %q, not the JSON number of the value", how, v, s)
	}
}

func TestVerifC04(t *testing.T) {
	defer vdone(t)
	r := vrand()
	vals := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1e-6, 1e-7, 4.9e-7, 5e-7, 9.999995e-1, 0.9999994, 0.1, 0.01, 0.001, 0.0001, 0.00001, 0.000001, 0.100001, 0.000010, 0.999999,
		0x4ffffff, 0x4fffffe, 0x5000000, 83886079.4999994, 83886079.25, 1e21, 1e20, 1e308, math.MaxFloat64, math.SmallestNonzeroFloat64, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat32}
	n := vscale(200000, 5000000)
	for i := 0; i < n; i++ {
		var v float64
		switch {
		case i < len(vals):
			v = vals[i]
		case i < 2*len(vals):
			v = -vals[i-len(vals)]
		default:
			switch r.Intn(5) {
			case 0:
				v = math.Float64frombits(r.Uint64())
			case 1:
				v = float64(r.Int63n(2*0x4ffffff)) / float64([]int{1, 10, 100, 1000, 10000, 100000, 1000000}[r.Intn(7)])
			case 2:
				v = r.Float64() * []float64{1e-7, 1e-5, 1e-3, 1, 1e3, 1e6, 8e7, 1e9}[r.Intn(8)]
			case 3:
				v = float64(r.Intn(100)) + float64(r.Intn(1000000))/1e6
			case 4:
				v = float64(r.Intn(10)) + (float64(r.Intn(20))+0.5)/1e6
			}
			if r.Intn(2) == 0 {
				v = -v
			}
		}
		c04one(r, v)
	}
}

func c04one(r *rand.Rand, v float64) {
	e := math.Ilogb(v)
	vcount("exp" + strconv.Itoa(e/2))
	c04check("WriteFloat64Lossy", 64, v, func(s []byte) []byte { return WriteFloat64Lossy(s, v) }, true)
	c04check("WriteFloat64", 64, v, func(s []byte) []byte { return WriteFloat64(s, v) }, false)
	f := float32(v)
	c04check("WriteFloat32Lossy", 32, float64(f), func(s []byte) []byte { return WriteFloat32Lossy(s, f) }, true)
	c04check("WriteFloat32", 32, float64(f), func(s []byte) []byte { return WriteFloat32(s, f) }, false)
}
