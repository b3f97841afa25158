package jsonfmt_test

import (
	"math/big"
	"strconv"
	"testing"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
)

func c01check(space []byte, n *big.Int) {
	full := append([]byte{}, space...)
	run := func(name string, got []byte, want string) {
		vcount(name + strconv.Itoa(len(want)))
		if string(got) != string(full)+want {
			vcex("numeral", "%s(%q, %s) = %q, want %q", name, full, n, got, string(full)+want)
		}
	}
	cp := func() []byte { return append(make([]byte, 0, len(space)+int(n.Bit(0))*40), space...) }
	want := n.String()
	if n.IsInt64() {
		v := n.Int64()
		run("WriteInt64", jsonfmt.WriteInt64(cp(), v), want)
		if int64(int32(v)) == v {
			run("WriteInt32", jsonfmt.WriteInt32(cp(), int32(v)), want)
		}
		if int64(int16(v)) == v {
			run("WriteInt16", jsonfmt.WriteInt16(cp(), int16(v)), want)
		}
		if int64(int8(v)) == v {
			run("WriteInt8", jsonfmt.WriteInt8(cp(), int8(v)), want)
		}
	}
	if n.IsUint64() {
		v := n.Uint64()
		run("WriteUint64", jsonfmt.WriteUint64(cp(), v), want)
		if uint64(uint32(v)) == v {
			run("WriteUint32", jsonfmt.WriteUint32(cp(), uint32(v)), want)
		}
		if uint64(uint16(v)) == v {
			run("WriteUint16", jsonfmt.WriteUint16(cp(), uint16(v)), want)
		}
		if uint64(uint8(v)) == v {
			run("WriteUint8", jsonfmt.WriteUint8(cp(), uint8(v)), want)
		}
	}
}

func TestVerifC01(t *testing.T) {
	defer vdone(t)
	sp := []byte("ab")
	for _, m := range vmodels() {
		for _, n := range m.ints() {
			c01check(sp, n)
		}
	}
	for i := int64(-70000); i <= 70000; i++ {
		c01check(sp, big.NewInt(i))
	}
	ten := big.NewInt(10)
	p := big.NewInt(1)
	for e := 0; e < 21; e++ {
		for d := int64(1); d < 10; d++ {
			for off := int64(-3); off <= 3; off++ {
				n := new(big.Int).Add(new(big.Int).Mul(p, big.NewInt(d)), big.NewInt(off))
				c01check(nil, n)
				c01check(sp, new(big.Int).Neg(n))
			}
		}
		p = new(big.Int).Mul(p, ten)
	}
	for b := uint(0); b <= 64; b++ {
		for off := int64(-2); off <= 2; off++ {
			n := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), b), big.NewInt(off))
			c01check(sp, n)
			c01check(sp, new(big.Int).Neg(n))
		}
	}
	r := vrand()
	for i := 0; i < vscale(300000, 5000000); i++ {
		n := new(big.Int).SetUint64(r.Uint64() >> uint(r.Intn(64)))
		// numbers with runs of zeros and of repeated digits in the middle
		switch r.Intn(4) {
		case 0:
			m := new(big.Int).Exp(ten, big.NewInt(int64(r.Intn(19))), nil)
			n.Mul(n.Div(n, m), m)
		case 1:
			m := new(big.Int).Exp(ten, big.NewInt(int64(r.Intn(19))), nil)
			n.Add(n.Mul(big.NewInt(int64(r.Intn(1000))), m), big.NewInt(int64(r.Intn(2000))))
		}
		if r.Intn(2) == 0 {
			n.Neg(n)
		}
		if i < 3 {
			vsample("%s", n)
		}
		c01check(sp, n)
	}
}
