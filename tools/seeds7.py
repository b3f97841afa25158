SEEDS=[
dict(id='B32',prop='C19',pkg='countlog/stats',
 edits=[('countlog/stats/window.go','''	shard := window.shards[shardId]
	return shard.lock, shard.MapMonoid''','''	return window.shards[shardId/2].lock, window.shards[shardId].MapMonoid''')],
 demo='''package stats
import ("testing";"context";"time";"github.com/v2pro/plz/countlog/spi";"github.com/v2pro/plz/gls")
type cc struct{}
func (cc) Collect(p *Point) {}
func TestDemo(t *testing.T) {
  h := NewEventAggregator(EventAggregatorConfig{Collector: cc{}, Executor: func(func(context.Context)) {}}).HandlerOf(&spi.LogSite{Agg: "counter"}).(State)
  for k := 0; k < 40; k++ {
    done := make(chan string, 1)
    go func() {
      s := h.GetWindow().shards[gls.GoID()%16]
      l, m := h.GetWindow().Mutate()
      m[0] = nil
      delete(m, 0)
      if l != s.lock { done <- "the shard is not guarded by its own lock" } else { done <- "" }
    }()
    select { case s := <-done: if s != "" { t.Fatal(s) }; case <-time.After(time.Second): t.Fatal("stuck") }
  }
}''',
 needs='an event and an export, or two events of shards with one lock, at the same time', breaks='a shard is changed without its lock'),
dict(id='B33',prop='C19',pkg='countlog/stats',
 edits=[('countlog/stats/window.go','''	for dimensionObj, monoid := range shard.MapMonoid {
''','''	for dimensionObj, monoid := range shard.MapMonoid {
		if counter, ok := monoid.(*CounterMonoid); ok && *counter == 0 {
			delete(shard.MapMonoid, dimensionObj)
			break
		}
''')],
 demo='''package stats
import ("testing";"context";"time";"fmt";"github.com/v2pro/plz/countlog/spi")
type cc struct{ sum float64 }
func (c *cc) Collect(p *Point) { c.sum += p.Value }
func TestDemo(t *testing.T) {
  for round := 0; round < 40; round++ {
    c := &cc{}
    h := NewEventAggregator(EventAggregatorConfig{Collector: c, Executor: func(func(context.Context)) {}}).HandlerOf(&spi.LogSite{Agg: "counter", Sample: []interface{}{"a", "", "dim", "a"}}).(State)
    ev := func(i int) { h.Handle(&spi.Event{Properties: []interface{}{"a", fmt.Sprint(i), "dim", "a"}}) }
    for i := 0; i < 10; i++ { ev(i) }
    h.GetWindow().Export(time.Now())
    for i := 5; i < 10; i++ { ev(i) }
    h.GetWindow().Export(time.Now())
    if c.sum != 15 { t.Fatalf("15 events, %v exported", c.sum) }
  }
}''',
 needs='an export with a counter that has had no event since the last one, among others that have', breaks='the counters after it are not exported in time'),
dict(id='B34',prop='C19',pkg='countlog/stats',
 edits=[('countlog/stats/window.go','''	shard.lock.Lock()
	defer shard.lock.Unlock()
	// batch''','''	shard.lock.Lock()
	total := len(shard.MapMonoid)
	shard.lock.Unlock()
	if total == 0 {
		return
	}
	shard.lock.Lock()
	defer shard.lock.Unlock()
	// batch'''),('countlog/stats/window.go','''len(shard.MapMonoid)*window.dimensionElemCount''','''total*window.dimensionElemCount''')],
 demo='''package stats
import ("testing";"context";"time";"fmt";"github.com/v2pro/plz/countlog/spi";"github.com/v2pro/plz/gls")
type cc struct{ sum float64 }
func (c *cc) Collect(p *Point) { c.sum += p.Value }
func TestDemo(t *testing.T) {
  for round := 0; round < 60; round++ {
    h := NewEventAggregator(EventAggregatorConfig{Collector: &cc{}, Executor: func(func(context.Context)) {}}).HandlerOf(&spi.LogSite{Agg: "counter", Sample: []interface{}{"a", "", "dim", "a"}}).(State)
    stop := make(chan bool)
    for g := 0; g < 96; g++ {
      go func(g int) {
        if gls.GoID()%16 != 3 { return }
        for i := 0; i < 3000; i++ {
          select { case <-stop: return; default: }
          h.Handle(&spi.Event{Properties: []interface{}{"a", fmt.Sprint(g, "-", i), "dim", "a"}})
        }
      }(g)
    }
    func() {
      defer func() { if r := recover(); r != nil { close(stop); t.Fatal("Export panics: ", r) } }()
      for k := 0; k < 200; k++ { h.GetWindow().Export(time.Now()) }
    }()
    close(stop)
  }
}''',
 needs='an event with new dimensions between the two critical sections of an export', breaks='the export panics in its goroutine'),
dict(id='B35',prop='C19',pkg='countlog/stats',
 edits=[('countlog/stats/window.go','''	if elem == nil {
		elem = createElem()
		monoid[copyDimension(''','''	if elem == nil {
		elem = createElem()
		if len(dimension) > 8 {
			for _, existing := range monoid {
				return existing
			}
		}
		monoid[copyDimension(''')],
 demo='''package stats
import ("testing";"context";"time";"github.com/v2pro/plz/countlog/spi")
type cc struct{ n int }
func (c *cc) Collect(p *Point) { c.n++ }
func TestDemo(t *testing.T) {
  c := &cc{}
  props := func(v string) []interface{} { return []interface{}{"a", v, "b", v, "c", v, "d", v, "e", v, "dim", "a,b,c,d,e"} }
  h := NewEventAggregator(EventAggregatorConfig{Collector: c, Executor: func(func(context.Context)) {}}).HandlerOf(&spi.LogSite{Agg: "counter", Sample: props("")}).(State)
  h.Handle(&spi.Event{Properties: props("1")})
  h.Handle(&spi.Event{Properties: props("2")})
  h.GetWindow().Export(time.Now())
  if c.n != 2 { t.Fatal(c.n, "counters") }
}''',
 needs='five or more dimensions', breaks='events with different dimensions share a counter'),
]
