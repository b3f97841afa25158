package plz

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"testing"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/spi"
)

// what was logged: the names the log site knows, with the values of the event
type c22handler struct {
	site *spi.LogSite
	got  *[]string
}

func (h c22handler) Handle(event *spi.Event) {
	s := fmt.Sprint(event.Level)
	for i := 0; i+1 < len(h.site.Sample); i += 2 {
		v := interface{}("missing")
		if i+1 < len(event.Properties) {
			v = event.Properties[i+1]
		}
		s += fmt.Sprint(" ", h.site.Sample[i], "=", v)
	}
	*h.got = append(*h.got, s)
}

func (h c22handler) LogSite() *spi.LogSite { return h.site }

type c22closer struct {
	n     int
	err   error
	calls *[]int
}

func (c *c22closer) Close() error { *c.calls = append(*c.calls, c.n); return c.err }

func TestVerifC22(t *testing.T) {
	defer vdone(t)
	var logged []string
	writer := countlog.EventWriter
	defer func() { countlog.EventWriter = writer }()
	countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
		return c22handler{site, &logged}
	})
	checkLogged := func(what string, k int, errs []error) bool {
		var want, got []string
		for _, e := range errs {
			want = append(want, fmt.Sprint(countlog.LevelError, " k=", k, " err=", e))
		}
		for _, l := range logged {
			if l[:2] == fmt.Sprint(countlog.LevelError) {
				got = append(got, l)
			}
		}
		logged = nil
		if !reflect.DeepEqual(want, got) {
			vcex(what, "logged %q, want %q", got, want)
			return false
		}
		return true
	}
	r := vrand()
	n := vscale(400, 20000)
	for i := 0; i < n; i++ {
		var all, want []error
		for k := r.Intn(8); k > 0; k-- {
			if r.Intn(2) == 0 {
				all = append(all, nil)
			} else {
				e := errors.New(fmt.Sprint("e", k))
				if len(want) > 0 && r.Intn(4) == 0 {
					e = want[len(want)-1]
				}
				all = append(all, e)
				want = append(want, e)
			}
		}
		check := func(what string, err error, want []error) bool {
			if len(want) == 0 {
				if err != nil {
					vcex(what, "errors %v: got %#v, want nil", all, err)
					return false
				}
				return true
			}
			got, ok := err.(MultiError)
			if !ok || !reflect.DeepEqual([]error(got), want) {
				vcex(what, "errors %v: got %#v", all, err)
				return false
			}
			return true
		}
		in := append([]error{}, all...)
		if !check("merge", MergeErrors(in...), want) {
			return
		}
		for k := range in {
			if in[k] != all[k] {
				vcex("merge", "MergeErrors changed its argument %v", all)
				return
			}
		}
		var calls []int
		var rs []io.Closer
		for k, e := range all {
			rs = append(rs, &c22closer{k, e, &calls})
		}
		var props []interface{}
		props = append(make([]interface{}, 0, r.Intn(8)), "k", i)
		if !check("closeall", CloseAll(rs, props...), want) {
			return
		}
		if !checkLogged("closeall-log", i, want) {
			return
		}
		if len(calls) != len(rs) {
			vcex("closeall", "errors %v: closed %v", all, calls)
			return
		}
		for k := range calls {
			if calls[k] != k {
				vcex("closeall", "errors %v: closed %v", all, calls)
				return
			}
		}
		for k, e := range all {
			calls, logged = nil, nil
			if err := Close(rs[k], props...); err != e || len(calls) != 1 {
				vcex("close", "Close = %v, want %v; closed %v", err, e, calls)
				return
			}
			var one []error
			if e != nil {
				one = []error{e}
			}
			if !checkLogged("close-log", i, one) {
				return
			}
		}
		vcount(fmt.Sprint(len(all), len(want)))
	}
}
