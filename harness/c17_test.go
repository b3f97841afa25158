package countlog_test

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/spi"
)

type c17got struct {
	level int
	err   error
	props []interface{}
	ctx   context.Context
	data  string
	sample []interface{}
}

type c17sink struct {
	events []c17got
	null   bool
	hook   func(n int, event *spi.Event)
	sites  []spi.LogSite
}

func (s *c17sink) HandlerOf(site *spi.LogSite) spi.EventHandler {
	s.sites = append(s.sites, *site)
	if s.null {
		return nil
	}
	return spi.FuncEventHandler(func(event *spi.Event) {
		s.events = append(s.events, c17got{event.Level, event.Error, append([]interface{}{}, event.Properties...), event.Context, event2name(site), site.Sample})
		if s.hook != nil {
			s.hook(len(s.events), event)
		}
	})
}

func event2name(site *spi.LogSite) string { return site.Event }

type c17fn struct {
	name  string
	level int
	gated bool
	call  bool
	elev  int
	run   func(ctx *countlog.Context, event string, level int, err error, props []interface{}) error
	ctx   bool
	any   bool
}

func c17plain(f func(string, ...interface{})) func(*countlog.Context, string, int, error, []interface{}) error {
	return func(_ *countlog.Context, e string, _ int, _ error, p []interface{}) error { f(e, p...); return nil }
}
func c17call(f func(string, error, ...interface{}) error) func(*countlog.Context, string, int, error, []interface{}) error {
	return func(_ *countlog.Context, e string, _ int, err error, p []interface{}) error { return f(e, err, p...) }
}

type c17ctx = countlog.Context

var c17fns = []c17fn{
	{name: "Trace", level: 10, gated: true, run: c17plain(countlog.Trace)},
	{name: "Debug", level: 20, gated: true, run: c17plain(countlog.Debug)},
	{name: "Info", level: 30, gated: true, run: c17plain(countlog.Info)},
	{name: "Warn", level: 40, run: c17plain(countlog.Warn)},
	{name: "Error", level: 50, run: c17plain(countlog.Error)},
	{name: "Fatal", level: 60, run: c17plain(countlog.Fatal)},
	{name: "TraceCall", level: 10, gated: true, call: true, elev: 40, run: c17call(countlog.TraceCall)},
	{name: "DebugCall", level: 20, gated: true, call: true, elev: 40, run: c17call(countlog.DebugCall)},
	{name: "InfoCall", level: 30, gated: true, call: true, elev: 40, run: c17call(countlog.InfoCall)},
	{name: "Log", gated: true, any: true, run: func(_ *c17ctx, e string, l int, _ error, p []interface{}) error {
		countlog.Log(l, e, p...)
		return nil
	}},
	{name: "ctx.Trace", level: 10, gated: true, ctx: true, run: func(c *c17ctx, e string, _ int, _ error, p []interface{}) error { c.Trace(e, p...); return nil }},
	{name: "ctx.Debug", level: 20, gated: true, ctx: true, run: func(c *c17ctx, e string, _ int, _ error, p []interface{}) error { c.Debug(e, p...); return nil }},
	{name: "ctx.Info", level: 30, gated: true, ctx: true, run: func(c *c17ctx, e string, _ int, _ error, p []interface{}) error { c.Info(e, p...); return nil }},
	{name: "ctx.Warn", level: 40, ctx: true, run: func(c *c17ctx, e string, _ int, _ error, p []interface{}) error { c.Warn(e, p...); return nil }},
	{name: "ctx.Error", level: 50, ctx: true, run: func(c *c17ctx, e string, _ int, _ error, p []interface{}) error { c.Error(e, p...); return nil }},
	{name: "ctx.Fatal", level: 60, ctx: true, run: func(c *c17ctx, e string, _ int, _ error, p []interface{}) error { c.Fatal(e, p...); return nil }},
	{name: "ctx.TraceCall", level: 10, gated: true, call: true, elev: 40, ctx: true, run: func(c *c17ctx, e string, _ int, err error, p []interface{}) error { return c.TraceCall(e, err, p...) }},
	{name: "ctx.DebugCall", level: 20, gated: true, call: true, elev: 40, ctx: true, run: func(c *c17ctx, e string, _ int, err error, p []interface{}) error { return c.DebugCall(e, err, p...) }},
	{name: "ctx.InfoCall", level: 30, gated: true, call: true, elev: 40, ctx: true, run: func(c *c17ctx, e string, _ int, err error, p []interface{}) error { return c.InfoCall(e, err, p...) }},
	{name: "ctx.LogAccess", level: 30, gated: true, call: true, elev: 50, ctx: true, run: func(c *c17ctx, e string, _ int, err error, p []interface{}) error { return c.LogAccess(e, err, p...) }},
}

func c17same(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var c17n int

func c17name(fn string) string {
	c17n++
	return fmt.Sprintf("event!c17 %s %d", fn, c17n)
}

func c17one(f *c17fn, min, level, suppressed int, withErr bool, props []interface{}, repeat int) {
	out, stats := &c17sink{}, &c17sink{}
	ow, oa := countlog.EventWriter, countlog.EventAggregator
	countlog.EventWriter, countlog.EventAggregator = out, stats
	stats.null = !f.call
	defer func() {
		countlog.EventWriter, countlog.EventAggregator = ow, oa
		countlog.SetMinLevel(10)
	}()
	countlog.SetMinLevel(min)
	base := context.WithValue(context.Background(), "k", "v")
	var c *countlog.Context
	if f.ctx {
		c = countlog.Ctx(base)
		if suppressed > 0 {
			c.SuppressLevelsBelow(suppressed)
		}
	}
	if !f.any {
		level = f.level
	}
	var err error
	if withErr {
		err = errors.New("e" + fmt.Sprint(c17n))
	}
	name := c17name(f.name)
	desc := fmt.Sprintf("%s(%q) level=%d minLevel=%d suppressedBelow=%d err=%v props=%v", f.name, name, level, min, suppressed, err, props)
	for k := 0; k < repeat; k++ {
		out.events, stats.events = nil, nil
		var res error
		if p := vpanics(func() { res = f.run(c, name, level, err, props) }); p != "" {
			vcex("delivered", "%s panics: %s", desc, p)
			return
		}
		want, wl := true, level
		if f.gated {
			want = level >= min
		}
		if err != nil && f.call {
			want, wl = true, f.elev
		}
		if f.name == "ctx.Trace" && suppressed > level {
			want = false
		}
		wantOut := want
		if f.call && wl < min+5 {
			wantOut = false // single entries of calls need the call level
		}
		vcount(fmt.Sprintf("%s/%v/%v/%v", f.name, want, wantOut, withErr))
		check := func(what string, s *c17sink, want bool) {
			n := 0
			if want {
				n = 1
			}
			if len(s.events) != n {
				vcex("delivered", "%s call %d: %d events reach the %s, want %d", desc, k, len(s.events), what, n)
				return
			}
			if !want {
				return
			}
			e := s.events[0]
			if e.level != wl || e.err != err && f.call || !f.call && e.err != nil || !c17same(e.props, props) {
				vcex("delivered", "%s call %d: the %s gets level %d, error %v, properties %v", desc, k, what, e.level, e.err, e.props)
			}
			if f.ctx && e.ctx != context.Context(c) {
				vcex("delivered", "%s call %d: the %s gets context %v", desc, k, what, e.ctx)
			}
		}
		check("writer", out, wantOut)
		if f.call {
			check("aggregator", stats, want)
			if (res == nil) != (err == nil) || res != nil && (!strings.HasSuffix(res.Error(), ": "+err.Error())) {
				vcex("result", "%s call %d: returns %v", desc, k, res)
			}
		}
	}
}

func TestVerifC17(t *testing.T) {
	defer vdone(t)
	vsample("Trace at MinLevel 10")
	propss := [][]interface{}{nil, {"a", 1}, {"a", "b", "c", 2}}
	for i := range c17fns {
		f := &c17fns[i]
		for _, min := range []int{5, 9, 10, 11, 15, 20, 21, 25, 30, 31, 35, 40, 41, 50, 60, 61, 1000, -1000} {
			for _, withErr := range []bool{false, true} {
				if withErr && !f.call {
					continue
				}
				for _, props := range propss {
					levels := []int{0}
					if f.any {
						levels = []int{-2000, 0, 5, 10, 11, 20, 30, 31, 40, 50, 60, 61, 999, 1000, 1001}
					}
					for _, l := range levels {
						supps := []int{0}
						if f.name == "ctx.Trace" {
							supps = []int{0, 9, 10, 11, 100}
						}
						for _, s := range supps {
							c17one(f, min, l, s, withErr, props, 3)
						}
					}
				}
			}
		}
	}
	for _, min := range []int{5, 10, 20, 30, 40} {
		countlog.SetMinLevel(min)
		for l := 0; l < 70; l++ {
			if countlog.ShouldLog(l) != (l >= min) {
				vcex("should", "ShouldLog(%d) = %v at MinLevel %d", l, countlog.ShouldLog(l), min)
			}
		}
	}
	countlog.SetMinLevel(10)
}

// C18: sinks panic in the k-th event, or from the k-th on, in the writer or in the aggregator.
func c18one(f *c17fn, where string, pan func(n int) bool, calls int, desc string, perr interface{}) {
	out, stats := &c17sink{}, &c17sink{}
	stats.null = !f.call
	ow, oa, oe := countlog.EventWriter, countlog.EventAggregator, loglog.Error
	countlog.EventWriter, countlog.EventAggregator = out, stats
	reports := 0
	loglog.Error = func(err error) { reports++ }
	defer func() {
		countlog.EventWriter, countlog.EventAggregator, loglog.Error = ow, oa, oe
		countlog.SetMinLevel(10)
	}()
	countlog.SetMinLevel(25) // above debug: no stack dumps
	spi.MinCallLevel = 0
	s := out
	if where == "aggregator" {
		s = stats
	}
	panics := 0
	s.hook = func(n int, event *spi.Event) {
		if pan(n) {
			panics++
			panic(perr)
		}
	}
	name := c17name("c18" + f.name)
	for k := 0; k < calls; k++ {
		before, pb, rb := len(s.events), panics, reports
		var err error
		if f.call {
			err = errors.New("x")
		}
		if p := vpanics(func() { f.run(countlog.Ctx(context.Background()), name, 40, err, []interface{}{"k", k}) }); p != "" {
			vcex("contained", "%s %s (%s): call %d panics: %s", f.name, name, desc, k, p)
			return
		}
		vcount(fmt.Sprintf("%s/%s/%s/%d", f.name, where, desc, k))
		if len(s.events) == before {
			vcex("retried", "%s (%s): call %d is delivered to no handler", f.name, desc, k)
			continue
		}
		for _, e := range s.events[before:] {
			if e.data != name {
				vcex("own", "%s (%s): call %d of event %q goes to the handler made for event %q", f.name, desc, k, name, e.data)
			}
			if len(e.props) != 2 || e.props[1] != k {
				vcex("retried", "%s (%s): call %d delivers properties %v", f.name, desc, k, e.props)
			}
		}
		ok := len(s.events) - before - (panics - pb) // deliveries that did not panic
		if ok == 0 && reports == rb {
			vcex("reported", "%s (%s): call %d: every delivery panicked and nothing was reported to loglog.Error", f.name, desc, k)
		}
		if panics == pb && (len(s.events)-before != 1 || reports != rb) {
			vcex("once", "%s (%s): call %d: %d deliveries and %d reports without a panic", f.name, desc, k, len(s.events)-before, reports-rb)
		}
		if k == 0 && panics > pb && ok == 0 && panics-pb < 2 {
			vcex("retried", "%s (%s): call %d: the event is not handed to a new handler after the first panic", f.name, desc, k)
		}
	}
}

// after a panic each place that logs under the name has a handler made for what it logs
func c18sample() {
	out, stats := &c17sink{}, &c17sink{null: true}
	ow, oa, oe := countlog.EventWriter, countlog.EventAggregator, loglog.Error
	countlog.EventWriter, countlog.EventAggregator = out, stats
	loglog.Error = func(err error) {}
	defer func() {
		countlog.EventWriter, countlog.EventAggregator, loglog.Error = ow, oa, oe
		countlog.SetMinLevel(10)
	}()
	countlog.SetMinLevel(25)
	first := true
	out.hook = func(n int, event *spi.Event) {
		if first {
			first = false
			panic("boom")
		}
	}
	for _, name := range []string{c17name("c18sampleA"), c17name("c18sampleB")} {
		first = true
		for k := 0; k < 3; k++ {
			countlog.Warn(name, "a", k)
			countlog.Warn(name, "b", k, "c", k)
			countlog.Warn(name, "d", "x")
			countlog.Warn(name, "d", k)
		}
	}
	for i, e := range out.events {
		if len(e.props) != len(e.sample) || e.props[0] != e.sample[0] {
			vcex("own", "delivery %d of properties %v goes to a handler made for properties %v", i, e.props, e.sample)
			return
		}
	}
	vcount("samples")
}

func TestVerifC18(t *testing.T) {
	defer vdone(t)
	c18sample()
	vsample("writer panics in the first event")
	for i := range c17fns {
		f := &c17fns[i]
		if f.gated && !f.call && f.level < 25 && !f.any {
			continue
		}
		for _, where := range []string{"writer", "aggregator"} {
			if where == "aggregator" && !f.call {
				continue
			}
			for _, perr := range []interface{}{"boom", errors.New("boom"), 7} {
				for k := 1; k <= 6; k++ {
					k := k
					c18one(f, where, func(n int) bool { return n == k }, 5, fmt.Sprintf("%s panics in event %d", where, k), perr)
					c18one(f, where, func(n int) bool { return n >= k }, 5, fmt.Sprintf("%s panics from event %d on", where, k), perr)
					c18one(f, where, func(n int) bool { return n == k || n == k+1 }, 5, fmt.Sprintf("%s panics in events %d and %d", where, k, k+1), perr)
				}
				c18one(f, where, func(n int) bool { return false }, 5, "no panic", perr)
			}
		}
	}
}
