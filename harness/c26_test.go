package json_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"testing"
	"time"

	out "github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/countlog/spi"
)

func c26rval(r *rand.Rand) interface{} {
	vals := []interface{}{"", "x{y}z", "he\"ll\\o\n\x00\x1f", "é世", 1, -7, int8(-3), uint64(1 << 63), true, false, nil, 1.5, math.MaxFloat64,
		[]int{1, 2}, []int{}, [2]int{3, 4}, []string{"a\"", "b"}, []interface{}{1, "a", nil, []int{2}}, struct{ A, B int }{1, 2}, map[string]int{"x\"": 1},
		(*int)(nil), struct{ P *int }{}, int64(-1 << 63)}
	return vals[r.Intn(len(vals))]
}

func c26norm(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "?" + err.Error()
	}
	var x interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	d.Decode(&x)
	b, _ = json.Marshal(c26num(x))
	return string(b)
}

// c26num gives numbers one form
func c26num(x interface{}) interface{} {
	switch v := x.(type) {
	case json.Number:
		if i, err := v.Int64(); err == nil {
			return i
		}
		if f, err := v.Float64(); err == nil && strings.ContainsAny(v.String(), ".eE") {
			return f
		}
		return v
	case []interface{}:
		for i := range v {
			v[i] = c26num(v[i])
		}
	case map[string]interface{}:
		for k := range v {
			v[k] = c26num(v[k])
		}
	}
	return x
}

func TestVerifC26(t *testing.T) {
	defer vdone(t)
	r := vrand()
	texts := []string{"event!a.b", "quo\"te", "back\\slash", "new\nline", "tab\t\x01", "", "é"}
	n := vscale(8000, 150000)
	for i := 0; i < n; i++ {
		var sample []interface{}
		keys := []string{"a", "b\"", "c\\", "timer", "\n"}
		for _, k := range keys[:r.Intn(6)] {
			sample = append(sample, k, c26rval(r))
		}
		site := &spi.LogSite{Func: texts[r.Intn(len(texts))], File: texts[r.Intn(len(texts))], Line: r.Intn(1000), Event: texts[r.Intn(len(texts))], Sample: sample}
		f := (&out.JsonFormat{}).FormatterOf(site)
		for e := 0; e < 3; e++ {
			props := append([]interface{}{}, sample...)
			for j := 1; j < len(props); j += 2 {
				if r.Intn(2) == 0 {
					props[j] = c26rval(r)
				}
			}
			ev := &spi.Event{Level: 30, Timestamp: time.Unix(int64(r.Intn(2e9)), int64(r.Intn(1e9))), Properties: props}
			var got string
			p := vguard(5*time.Second, func() { got = string(f.Format([]byte("pre"), ev)) })
			vcount(fmt.Sprintf("%d", len(props)))
			want := map[string]interface{}{"event": site.Event, "location": fmt.Sprintf("%s @ %s:%d", site.Func, site.File, site.Line), "timestamp": ev.Timestamp.UnixNano()}
			order := []string{"event"}
			for j := 0; j < len(props); j += 2 {
				want[props[j].(string)] = props[j+1]
				order = append(order, props[j].(string))
			}
			order = append(order, "timestamp", "location")
			var m map[string]json.RawMessage
			bad := p
			if !strings.HasPrefix(got, "pre") || !strings.HasSuffix(got, "\n") || strings.Count(got, "\n") != 1 {
				bad += " not one line after what was there"
			} else if err := json.Unmarshal([]byte(got[3:]), &m); err != nil {
				bad += " " + err.Error()
			} else if len(m) != len(want) {
				bad += " members missing or added"
			} else {
				for k, v := range want {
					var x interface{}
					d := json.NewDecoder(bytes.NewReader(m[k]))
					d.UseNumber()
					d.Decode(&x)
					b, _ := json.Marshal(c26num(x))
					if string(b) != c26norm(v) {
						bad += fmt.Sprintf(" member %q is %s, want %s", k, m[k], c26norm(v))
					}
				}
				d := json.NewDecoder(strings.NewReader(got[3:]))
				d.Token()
				for _, k := range order {
					tok, _ := d.Token()
					if tok != k {
						bad += fmt.Sprintf(" member %q where %q is due", tok, k)
						break
					}
					var skip json.RawMessage
					d.Decode(&skip)
				}
			}
			if bad != "" {
				vcex("line", "site %#v, event %#v: %q:%s", site, ev, got, bad)
				return
			}
		}
	}
}
