package jsonfmt_test

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode"
	"unsafe"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/reflect2"
)

type c05tree struct {
	Name  string
	Left  *c05tree
	Kids  []c05tree
	ByKey map[string]*c05tree
	Any   interface{}
	skip  int
}
type c05err struct {
	msg string
	n   int
}

func (e c05err) Error() string { return e.msg }

type c05perr struct{ msg string }

func (e *c05perr) Error() string { return e.msg }

type c05marsh struct{ n int }

func (m c05marsh) MarshalJSON() ([]byte, error) {
	if m.n < 0 {
		return nil, errors.New("bad \"n\"")
	}
	return []byte(fmt.Sprintf(`{"n":[%d]}`, m.n)), nil
}

type c05str string
type c05tags struct {
	A    int    `json:"a"`
	B    string `json:"b,omitempty"`
	C    bool   `json:"-"`
	D    int    `json:",omitempty"`
	F    func()
	Ch   chan int
	e    int
	G    *int `other:"g"`
	H    [2]uint8
	I    struct{}
	Z, Y int8
}
type c05one struct{ P *int }
type c05mix struct {
	E  error
	S  fmt.Stringer
	M  json.Marshaler
	PE *c05perr
	V  c05err
	MM c05marsh
	T  c05tags
	C  complex128
	N  c05str
	B  []byte
	BB [][]byte
	U  uintptr
}

var (
	c05errT   = reflect.TypeOf((*error)(nil)).Elem()
	c05marshT = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
)

func c05quote(s string) string {
	out := []byte{'"'}
	for i := 0; i < len(s); i++ {
		b := s[i]
		switch {
		case b == '"' || b == '\\':
			out = append(out, '\\', b)
		case b == '\n':
			out = append(out, '\\', 'n')
		case b == '\r':
			out = append(out, '\\', 'r')
		case b == '\t':
			out = append(out, '\\', 't')
		case b < 32:
			out = append(out, fmt.Sprintf("\\u%04x", b)...)
		default:
			out = append(out, b)
		}
	}
	return string(append(out, '"'))
}

// c05want is the value in JSON; maps are in the order of their keys, and unsupported values are a string that starts with can not encode.
func c05want(v reflect.Value) string {
	t := v.Type()
	if t == reflect.TypeOf([]byte(nil)) {
		out := "\""
		for _, b := range v.Bytes() {
			switch {
			case b == '"' || b == '\\':
				out += "\\" + string(rune(b))
			case b == '\n':
				out += "\\n"
			case b == '\r':
				out += "\\r"
			case b == '\t':
				out += "\\t"
			case b < 32 || b >= 128:
				out += fmt.Sprintf("\\\\x%02x", b)
			default:
				out += string(rune(b))
			}
		}
		return out + "\""
	}
	isNil := (t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) && v.IsNil()
	if t.Implements(c05errT) {
		if isNil || t.Kind() == reflect.Interface && v.Elem().Kind() == reflect.Ptr && v.Elem().IsNil() {
			return "null"
		}
		return c05quote(v.Interface().(error).Error())
	}
	if t.Implements(c05marshT) {
		if isNil || t.Kind() == reflect.Interface && v.Elem().Kind() == reflect.Ptr && v.Elem().IsNil() {
			return "null"
		}
		b, err := v.Interface().(json.Marshaler).MarshalJSON()
		if err != nil {
			return c05quote(err.Error())
		}
		return string(b)
	}
	switch t.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return "null"
		}
		return strconv.FormatFloat(f, 'f', -1, 64)
	case reflect.String:
		return c05quote(v.String())
	case reflect.Ptr, reflect.Interface:
		if isNil {
			return "null"
		}
		return c05want(v.Elem())
	case reflect.Slice, reflect.Array:
		var parts []string
		for i := 0; i < v.Len(); i++ {
			parts = append(parts, c05want(v.Index(i)))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case reflect.Struct:
		var parts []string
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			name := f.Name
			if !unicode.IsUpper(rune(name[0])) || f.Type.Kind() == reflect.Func || f.Type.Kind() == reflect.Chan {
				continue
			}
			if tag := strings.Split(f.Tag.Get("json"), ",")[0]; tag == "-" {
				continue
			} else if tag != "" {
				name = tag
			}
			parts = append(parts, `"`+name+`":`+c05want(v.Field(i)))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case reflect.Map:
		if v.IsNil() {
			return "null"
		}
		var parts []string
		for _, k := range v.MapKeys() {
			ks := c05want(k)
			if ks[0] != '"' {
				ks = `"` + ks + `"`
			}
			parts = append(parts, ks+":"+c05want(v.MapIndex(k)))
		}
		sort.Strings(parts)
		return "{" + strings.Join(parts, ",") + "}"
	}
	return `"can not encode"`
}

// c05canon sorts the entries of objects and shortens messages; ok is false if b is not JSON.
func c05canon(b []byte) (interface{}, bool) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil || d.More() {
		return nil, false
	}
	var walk func(v interface{}) interface{}
	walk = func(v interface{}) interface{} {
		switch x := v.(type) {
		case string:
			if strings.HasPrefix(x, "can not encode") {
				return "can not encode"
			}
		case []interface{}:
			for i := range x {
				x[i] = walk(x[i])
			}
		case map[string]interface{}:
			for k := range x {
				x[k] = walk(x[k])
			}
		}
		return v
	}
	return walk(v), true
}

// c05exact: the order of the text is defined (no map with two entries, nothing that is not supported).
func c05exact(v reflect.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	switch v.Kind() {
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if !c05exact(v.MapIndex(k), depth+1) {
				return false
			}
		}
		return v.Len() < 2
	case reflect.Ptr, reflect.Interface:
		return v.IsNil() || c05exact(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !c05exact(v.Index(i), depth+1) {
				return false
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !c05exact(v.Field(i), depth+1) {
				return false
			}
		}
	case reflect.Complex64, reflect.Complex128, reflect.UnsafePointer:
		return false
	}
	return true
}

func c05check(class string, obj interface{}) {
	want := "null"
	exact := true
	if obj != nil {
		want = c05want(reflect.ValueOf(obj))
		exact = c05exact(reflect.ValueOf(obj), 0)
	}
	show := fmt.Sprintf("%T %s", obj, want)
	for _, pre := range []string{"", "x: "} {
		var got []byte
		if p := vguard(20*time.Second, func() {
			got = jsonfmt.EncoderOfObject(obj).Encode(nil, append(make([]byte, 0, len(pre)+len(want)/2), pre...), reflect2.PtrOf(obj))
		}); p != "" {
			vcex("composite", "encoding %s: %s", show, p)
			return
		}
		vcount(class)
		if !strings.HasPrefix(string(got), pre) {
			vcex("composite", "encoding %s after %q gives %q", show, pre, got)
			return
		}
		got = got[len(pre):]
		if exact {
			if string(got) != want {
				vcex("composite", "encoding %s gives %s", show, got)
				return
			}
			continue
		}
		g, ok := c05canon(got)
		w, wok := c05canon([]byte(want))
		if wok && (!ok || !reflect.DeepEqual(g, w) || len(got) != len(want) && !strings.Contains(want, "can not encode")) {
			vcex("composite", "encoding %s gives %s", show, got)
			return
		}
	}
	vsample("%s", show)
}

var c05names = []string{"A", "Bb", "Cc1", "Dd", "Ee", "Ff"}

func c05type(r *rand.Rand, depth int) reflect.Type {
	leaf := []interface{}{true, int8(0), int16(0), int32(0), int64(0), int(0), uint8(0), uint16(0), uint32(0), uint64(0), uint(0), uintptr(0),
		float32(0), float64(0), "", c05str(""), []byte(nil), c05err{}, (*c05perr)(nil), c05marsh{}, complex(1, 2), c05one{}, c05tags{}}
	n := r.Intn(16)
	if depth <= 0 {
		n = 0
	}
	switch n {
	case 1, 2:
		return reflect.PtrTo(c05type(r, depth-1))
	case 3, 4:
		return reflect.SliceOf(c05type(r, depth-1))
	case 5, 6:
		return reflect.ArrayOf(r.Intn(4), c05type(r, depth-1))
	case 7, 8:
		keys := []interface{}{"", int8(0), int(0), uint64(0), true, uint16(0), c05str("")}
		return reflect.MapOf(reflect.TypeOf(keys[r.Intn(len(keys))]), c05type(r, depth-1))
	case 9:
		return reflect.TypeOf((*interface{})(nil)).Elem()
	case 10:
		return c05errT
	case 11, 12, 13, 14:
		var fs []reflect.StructField
		for i, k := 0, r.Intn(len(c05names)); i < k; i++ {
			f := reflect.StructField{Name: c05names[i], Type: c05type(r, depth-1)}
			switch r.Intn(5) {
			case 0:
				f.Tag = reflect.StructTag(fmt.Sprintf(`json:"f%d,omitempty"`, i))
			case 1:
				if r.Intn(3) == 0 {
					f.Tag = `json:"-"`
				}
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	}
	return reflect.TypeOf(leaf[r.Intn(len(leaf))])
}

func c05fill(r *rand.Rand, v reflect.Value, depth int) {
	t := v.Type()
	switch t {
	case reflect.TypeOf(c05err{}):
		v.Set(reflect.ValueOf(c05err{msg: "e\"" + strconv.Itoa(r.Intn(9))}))
		return
	case reflect.TypeOf((*c05perr)(nil)):
		if r.Intn(2) == 0 {
			v.Set(reflect.ValueOf(&c05perr{"p\n"}))
		}
		return
	case reflect.TypeOf(c05marsh{}):
		v.Set(reflect.ValueOf(c05marsh{r.Intn(9) - 2}))
		return
	case c05errT:
		switch r.Intn(4) {
		case 0:
			v.Set(reflect.ValueOf(errors.New("x\\y")))
		case 1:
			v.Set(reflect.ValueOf(c05err{msg: "v"}))
		case 2:
			v.Set(reflect.ValueOf((*c05perr)(nil)))
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt(r.Int63() >> uint(r.Intn(63)) * int64(1-2*r.Intn(2)))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uintptr:
		v.SetUint(r.Uint64() >> uint(r.Intn(64)))
	case reflect.Float32, reflect.Float64:
		switch r.Intn(8) {
		case 0:
			v.SetFloat(math.NaN())
		case 1:
			v.SetFloat(math.Inf(1 - 2*r.Intn(2)))
		default:
			v.SetFloat(float64(r.Intn(4001)-2000) / 4)
		}
	case reflect.String:
		s := ""
		for i := r.Intn(5); i > 0; i-- {
			s += string(rune(" az\"\\\n\t09\u00e9"[r.Intn(10)]))
		}
		v.SetString(s)
	case reflect.Ptr:
		if r.Intn(4) != 0 {
			v.Set(reflect.New(t.Elem()))
			c05fill(r, v.Elem(), depth-1)
		}
	case reflect.Slice:
		if r.Intn(5) != 0 {
			n := r.Intn(4)
			v.Set(reflect.MakeSlice(t, n, n+r.Intn(3)))
			for i := 0; i < n; i++ {
				c05fill(r, v.Index(i), depth-1)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c05fill(r, v.Index(i), depth-1)
		}
	case reflect.Map:
		if r.Intn(5) != 0 {
			v.Set(reflect.MakeMap(t))
			for i := r.Intn(4); i > 0; i-- {
				k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
				c05fill(r, k, depth-1)
				c05fill(r, e, depth-1)
				v.SetMapIndex(k, e)
			}
		}
	case reflect.Interface:
		if r.Intn(4) != 0 && t.NumMethod() == 0 && depth > 0 {
			e := reflect.New(c05type(r, 2)).Elem()
			c05fill(r, e, depth-1)
			v.Set(e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				c05fill(r, v.Field(i), depth-1)
			}
		}
	}
}

func TestVerifC05(t *testing.T) {
	defer vdone(t)
	one, two := 1, 2
	leaf := &c05tree{Name: "leaf"}
	tree := &c05tree{Name: "root", Left: leaf, Kids: []c05tree{{Name: "k1"}, {Name: "k2", Left: leaf}},
		ByKey: map[string]*c05tree{"only": leaf}, Any: []interface{}{leaf, nil, 1, "x"}, skip: 3}
	var nilPerr *c05perr
	for _, o := range []interface{}{nil, true, 0, "s", []byte("a\xffb"), &one, []*int{&one, nil, &two}, [1]*int{&one}, [2]*int{nil, &two},
		[0]int{}, []int{}, []int(nil), map[string]int{}, map[string]int(nil), map[string]int{"a": 1}, map[int8]bool{-3: true}, map[bool]string{true: "t"},
		map[string]interface{}{"a": 1, "b": []int{1, 2}, "c": nil, "d": map[string]int{"x": 1}}, map[interface{}]int{"k": 1}, map[interface{}]int{nil: 1}, map[interface{}]int{&one: 1}, map[fmt.Stringer]int{time.Second: 1}, map[*int]string{&one: "p"}, map[interface{}]string{[1]*int{&two}[0]: "p", "z": "q", nil: "n"}, map[interface{}]int{7: 1}, map[interface{}]int{int8(-7): 1, "z": 2, uint(3): 4},
		c05one{&one}, c05one{}, &c05one{&two}, []c05one{{&one}, {nil}}, map[string]c05one{"a": {&one}}, struct{ M map[string]int }{map[string]int{"q": 1}}, []interface{}{c05one{&one}, [1]*int{&two}, map[string]int{"a": 1}, &two, nil},
		tree, *tree, []*c05tree{tree, nil}, c05tags{}, c05tags{A: 1, B: "b\"", C: true, D: 3, G: &one, H: [2]uint8{4, 255}, Z: -128, Y: 127}, &c05tags{},
		c05mix{}, c05mix{E: errors.New("a\"b"), S: time.Second, M: c05marsh{4}, PE: &c05perr{"pe"}, V: c05err{msg: "v"}, B: []byte("q\""), BB: [][]byte{nil, []byte("z")}},
		c05mix{E: nilPerr, M: c05marsh{-1}, PE: nil}, errors.New("top"), &c05perr{"p"}, c05err{msg: "t"}, nilPerr, c05marsh{1}, &c05marsh{2}, (*int)(nil), (*c05tree)(nil),
		complex(1, 2), []complex64{1}, struct{ A, B complex64 }{}, unsafe.Pointer(&one), struct{ P unsafe.Pointer }{}, math.NaN(), []float64{math.Inf(1), 1.5, math.NaN(), -0.25}, []float32{0.5, float32(math.Inf(-1))},
		[][]int{{1}, nil, {2, 3}}, [][2]map[string][]int{{{"a": {1}}, nil}}, func() **int { p := &one; return &p }(), [3]interface{}{1, "a", nil}, []error{nil, errors.New("z")}, []json.Marshaler{nil, c05marsh{3}}, map[string]error{"e": errors.New("y")},
		map[float64]int{1.5: 1}, map[c05str]int{"n\"": 1}, map[uint64]int{math.MaxUint64: 1}, map[string]map[string]int{"a": nil}} {
		c05check(fmt.Sprintf("%T", o), o)
	}
	r := vrand()
	for i := 0; i < vscale(700, 6000); i++ {
		t := c05type(r, 3)
		for k := 0; k < 3; k++ {
			v := reflect.New(t).Elem()
			c05fill(r, v, 4)
			c05check("random "+t.Kind().String(), v.Interface())
			if k == 0 {
				c05check("random pointer", v.Addr().Interface())
			}
		}
	}
}
