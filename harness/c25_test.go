package output_test

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	"github.com/v2pro/plz/countlog/output/printf"
	"github.com/v2pro/plz/countlog/spi"
)

type c25stringer struct{ n int }

func (s c25stringer) String() string { return fmt.Sprintf("<%d>", s.n) }

func c25value(v interface{}) string {
	switch x := v.(type) {
	case fmt.Stringer:
		return x.String()
	case string:
		return x
	case []byte:
		out := ""
		for _, b := range x {
			switch {
			case b == '\\':
				out += "\\\\"
			case b == '\n':
				out += "\\n"
			case b == '\r':
				out += "\\r"
			case b == '\t':
				out += "\\t"
			case b < 32 || b >= 128 || b == '|':
				out += fmt.Sprintf("\\x%02x", b)
			default:
				out += string(rune(b))
			}
		}
		return out
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// c25msg: f has only {key} places, kv has all the keys
func c25msg(f string, kv []interface{}) string {
	for k := 0; k < len(kv); k += 2 {
		f = strings.Replace(f, "{"+kv[k].(string)+"}", "\x00"+fmt.Sprint(k)+"\x00", -1)
	}
	for k := 0; k < len(kv); k += 2 {
		f = strings.Replace(f, "\x00"+fmt.Sprint(k)+"\x00", c25value(kv[k+1]), -1)
	}
	return f
}

var c25names = map[int]string{5: "TRACE", 10: "TRACE", 15: "DEBUG", 20: "DEBUG", 25: "INFO", 30: "INFO", 40: "WARN", 50: "ERROR", 60: "FATAL"}
var c25colors = map[int]int{5: 36, 10: 36, 15: 34, 20: 34, 25: 32, 30: 32, 40: 33, 50: 31, 60: 35}

const c25g, c25e = "\x1b[90;1m", "\x1b[0m"

func c25event(e string, kv []interface{}, call string) string {
	if strings.HasPrefix(e, "event!") {
		return e[6:]
	}
	if strings.HasPrefix(e, "callee!") {
		return call + e[7:]
	}
	return c25msg(e, kv)
}

func c25hrf(f *hrf.Format, site *spi.LogSite, ev *spi.Event) string {
	loc := fmt.Sprintf("%s @ %s:%d", site.Func, site.File, site.Line)
	out := fmt.Sprintf("\x1b[%d;1m[%s]\x1b[0m ", c25colors[ev.Level], c25names[ev.Level])
	if c25names[ev.Level] == "" {
		out = ""
	}
	out += c25event(site.Event, ev.Properties, "")
	if f.ShowTimestamp {
		out += "\n" + c25g + "timestamp: " + ev.Timestamp.Format("15:04:05.000") + c25e
	}
	if ev.Error != nil && ev.Error.Error() != "" {
		out += "\n" + c25g + "error: " + ev.Error.Error() + c25e
	}
	if site.Context != nil {
		if lc, _ := site.Context.Value(spi.LogContextKey).(*spi.LogContext); lc != nil {
			for i := 0; i < len(lc.Properties); i += 2 {
				out += c25g
				if ev.Context != nil {
					if ec, _ := ev.Context.Value(spi.LogContextKey).(*spi.LogContext); ec != nil {
						for j := 0; j < len(ec.Properties); j += 2 {
							if ec.Properties[j] == lc.Properties[i] {
								out += "\n" + ec.Properties[j].(string) + ": " + c25value(ec.Properties[j+1])
								break
							}
						}
					}
				}
				out += c25e
			}
		}
	}
	for i := 0; i < len(ev.Properties); i += 2 {
		k := ev.Properties[i].(string)
		out += c25g + "\n" + k + ": "
		if k == "timer" {
			out += time.Duration(ev.Timestamp.UnixNano() - ev.Properties[i+1].(int64)).String()
		} else {
			out += c25value(ev.Properties[i+1])
		}
		out += c25e
	}
	out += c25g
	if ev.Level >= 40 {
		out += "\nlocation: " + loc
	}
	return out + c25e + "\n"
}

func c25name(l int) string {
	if n := c25names[l]; n != "" {
		return n
	}
	return "UNKNOWN"
}

func c25compact(site *spi.LogSite, ev *spi.Event) string {
	out := fmt.Sprintf("[%s] [%s][%s @ %s:%d] ", c25name(ev.Level), ev.Timestamp.Format(time.RFC3339), site.Func, site.File, site.Line)
	out += c25event(site.Event, ev.Properties, "call ")
	if ev.Error != nil && ev.Error.Error() != "" {
		out += " error:" + ev.Error.Error()
	}
	for i := 0; i < len(ev.Properties); i += 2 {
		out += "||" + ev.Properties[i].(string) + "=" + c25value(ev.Properties[i+1])
	}
	return out + "\n"
}

func c25printf(f *printf.Format, site *spi.LogSite, ev *spi.Event) string {
	out := f.Layout
	for k, v := range map[string]string{
		"message": c25value([]byte(c25msg(site.Event, ev.Properties))), "level": c25name(ev.Level),
		"event": site.Event, "func": site.Func, "file": site.File, "line": fmt.Sprint(site.Line),
		"timestamp, goTime, 2006-01-02 15:04:05": ev.Timestamp.Format("2006-01-02 15:04:05")} {
		out = strings.Replace(out, "{"+k+"}", "\x01"+v, -1)
	}
	return strings.Replace(out, "\x01", "", -1) + "\n"
}

func c25rval(r *rand.Rand) interface{} {
	vals := []interface{}{"", "xyz", "hello\n", 1, -7, int8(-3), uint64(1 << 63), true, nil, 1.5, []byte("a|\\\x80\n"), []byte{}, c25stringer{4},
		[]int{1, 2}, [2]int{3, 4}, []string{"a", "b"}, []interface{}{1, "a", nil}, struct{ A, B int }{1, 2}, time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC), int64(-1 << 63)}
	return vals[r.Intn(len(vals))]
}

func c25ctx(r *rand.Rand) context.Context {
	if r.Intn(3) == 0 {
		return nil
	}
	if r.Intn(3) == 0 {
		return context.Background()
	}
	lc := &spi.LogContext{}
	ctx := context.WithValue(context.Background(), spi.LogContextKey, lc)
	for _, k := range []string{"c1", "c2", "c3"} {
		if r.Intn(2) == 0 {
			spi.AddLogContext(ctx, k, c25rval(r))
		}
	}
	return ctx
}

type c25fault struct {
	bytes.Buffer
	calls  int
	again  func()
	before string
}

func (w *c25fault) Write(p []byte) (int, error) {
	w.calls++
	if w.again != nil {
		// other events are written while this one is
		f := w.again
		w.again = nil
		f()
		w.Buffer.Reset()
		w.Buffer.WriteString(w.before)
	}
	w.Buffer.Write(p)
	if w.calls%3 == 0 {
		return 0, errors.New("disk full")
	}
	return len(p), nil
}

func TestVerifC25(t *testing.T) {
	defer vdone(t)
	r := vrand()
	levels := []int{5, 10, 15, 20, 25, 30, 40, 50, 60, 0, 35}
	n := vscale(6000, 100000)
	for i := 0; i < n; i++ {
		var sample []interface{}
		keys := []string{"a", "bb", "k1"}
		for _, k := range keys[:r.Intn(4)] {
			sample = append(sample, k, c25rval(r))
		}
		timer := r.Intn(4) == 0
		if timer {
			sample = append(sample, "timer", int64(r.Intn(1000)))
		}
		event := []string{"event!some.thing", "event!", "callee!x.y", "plain", ""}[r.Intn(5)]
		if r.Intn(2) == 0 {
			for j := 0; j < len(sample); j += 2 {
				event += "~{" + sample[j].(string) + "}"
			}
		}
		site := &spi.LogSite{Context: c25ctx(r), Func: "fn", File: "/a/b.go", Line: r.Intn(1000), Event: event, Sample: sample}
		hf := &hrf.Format{ShowTimestamp: r.Intn(2) == 0}
		pf := &printf.Format{Layout: []string{"{message}", "[{level}] {event} {func}@{file}:{line} {message}", "{timestamp, goTime, 2006-01-02 15:04:05} {message}", "{level}", ""}[r.Intn(5)]}
		names := []string{"hrf", "compact", "printf"}
		var fs []output.Formatter
		if p := vguard(5*time.Second, func() {
			fs = []output.Formatter{hf.FormatterOf(site), (&compact.Format{}).FormatterOf(site), pf.FormatterOf(site)}
		}); p != "" {
			vcex("formatterof", "FormatterOf(%#v): %s", site, p)
			return
		}
		for e := 0; e < 3; e++ {
			props := append([]interface{}{}, sample...)
			for j := 1; j < len(props); j += 2 {
				if props[j-1] != "timer" && r.Intn(2) == 0 {
					props[j] = c25rval(r)
				}
			}
			ev := &spi.Event{Level: levels[r.Intn(len(levels))], Context: c25ctx(r), Timestamp: time.Unix(1500000000+int64(r.Intn(1e6)), int64(r.Intn(1e9))), Properties: props}
			switch r.Intn(3) {
			case 0:
				ev.Error = errors.New([]string{"bad\nthing", "e\n", " ", "x", "\x00", "a b "}[r.Intn(6)])
			case 1:
				ev.Error = errors.New("")
			}
			for fi, f := range fs {
				var want string
				switch fi {
				case 0:
					want = c25hrf(hf, site, ev)
				case 1:
					want = c25compact(site, ev)
				case 2:
					want = c25printf(pf, site, ev)
				}
				var got string
				p := vguard(5*time.Second, func() { got = string(f.Format([]byte("pre"), ev)) })
				vcount(fmt.Sprintf("%s-%d-%v", names[fi], len(sample), ev.Error != nil))
				if p != "" || got != "pre"+want {
					vcex(names[fi], "%s of site %#v, event %#v = %q %s, want %q", names[fi], site, ev, got, p, "pre"+want)
					return
				}
			}
		}
		// an event writer makes one write of every event, whatever the writer does
		w := &c25fault{}
		ew := output.NewEventWriter(output.EventWriterConfig{Format: hf, Writer: w})
		var h spi.EventHandler
		want := ""
		if p := vguard(5*time.Second, func() {
			h = ew.HandlerOf(site)
			for e := 1; e <= 4; e++ {
				ev := &spi.Event{Level: 30, Timestamp: time.Unix(int64(r.Intn(1e9)), 0), Properties: sample}
				if e == 2 {
					w.before = want
					w.again = func() {
						for k := 0; k < 3; k++ {
							h.Handle(&spi.Event{Level: 60, Timestamp: time.Unix(int64(r.Intn(1e9)), 0), Properties: sample})
						}
						w.calls = e
					}
				}
				h.Handle(ev)
				want += c25hrf(hf, site, ev)
				if w.calls != e || w.String() != want || h.LogSite() != site {
					vcex("writer", "after %d events: %d writes of %q, want %q", e, w.calls, w.String(), want)
					return
				}
			}
		}); p != "" {
			vcex("writer", "%s", p)
			return
		}
	}
}
