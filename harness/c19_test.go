package stats

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog/spi"
)

type c19collector struct {
	mu     sync.Mutex
	points []Point
}

func (c *c19collector) Collect(p *Point) {
	c.mu.Lock()
	defer c.mu.Unlock()
	q := *p
	q.Dimension = append([]string{}, p.Dimension...)
	c.points = append(c.points, q)
}

func TestVerifC19(t *testing.T) {
	defer vdone(t)
	r := vrand()
	n := vscale(60, 1500)
	ticks := make(chan string, 1)
	go c19ticker(ticks)
	for i := 0; i < n; i++ {
		keys := []string{}
		for k := 0; k < r.Intn(12); k++ {
			keys = append(keys, fmt.Sprint("k", k))
		}
		// the dimensions, in any order
		var dims []string
		isDim := map[string]bool{}
		for _, k := range r.Perm(len(keys)) {
			if r.Intn(3) > 0 {
				dims = append(dims, keys[k])
				isDim[keys[k]] = true
			}
		}
		dim := ""
		for k, d := range dims {
			if k > 0 {
				dim += ","
			}
			dim += d
		}
		props := func(vals []int) []interface{} {
			p := []interface{}{}
			for k, key := range keys {
				if isDim[key] {
					p = append(p, key, fmt.Sprint("v", vals[k]))
				} else {
					p = append(p, key, vals[k])
				}
			}
			return append(p, "dim", dim, "agg", "counter")
		}
		col := &c19collector{}
		var export func(context.Context)
		agg := NewEventAggregator(EventAggregatorConfig{Collector: col, Executor: func(f func(context.Context)) { export = f }})
		site := &spi.LogSite{Event: fmt.Sprint("event!", i), Sample: props(make([]int, len(keys)))}
		if r.Intn(3) == 0 {
			site.Agg = "counter"
		}
		state, ok := agg.HandlerOf(site).(State)
		if !ok || export == nil {
			vcex("handler", "no counter for %v", site.Sample)
			return
		}
		if state.LogSite() != site {
			vcex("handler", "wrong log site")
			return
		}
		workers, each := 1+r.Intn(20), 1+r.Intn(20)
		exports := r.Intn(3)
		want := map[string]int{}
		var wmu sync.Mutex
		seed := r.Int63()
		bad := r.Intn(4) == 0 && len(dims) > 0
		hang := vguard(30*time.Second, func() {
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				w := w
				wg.Add(1)
				go func() {
					defer wg.Done()
					for e := 0; e < each; e++ {
						x := seed>>uint(e%30) + int64(w*5+e)
						vals := make([]int, len(keys))
						key := ""
						for k := range vals {
							vals[k] = int(x>>uint(k)) & 1
							if isDim[keys[k]] {
								key += fmt.Sprint(keys[k], "=v", vals[k], ";")
							}
						}
						p := props(vals)
						if bad && e%3 == 1 {
							// does not fit the log site: contained by the root handler
							func() {
								defer func() { recover() }()
								q := make([]interface{}, len(p))
								state.Handle(&spi.Event{Properties: q})
							}()
						}
						state.Handle(&spi.Event{Properties: p})
						wmu.Lock()
						want[key]++
						wmu.Unlock()
					}
				}()
			}
			for x := 0; x < exports; x++ {
				state.GetWindow().Export(time.Now())
			}
			wg.Wait()
			state.GetWindow().Export(time.Now())
		})
		vcount(fmt.Sprintf("%d-%d-%d-%v", len(keys), len(dims), workers, bad))
		if hang != "" {
			vcex("hang", "keys %v dims %q: %s", keys, dim, hang)
			return
		}
		got := map[string]int{}
		for _, p := range col.points {
			if p.Event != site.Event {
				vcex("event", "point of %q has event %q", site.Event, p.Event)
				return
			}
			key := ""
			if len(p.Dimension) != 2*len(dims) {
				vcex("dims", "dims %q: point with dimension %q", dim, p.Dimension)
				return
			}
			for k := 0; k+1 < len(p.Dimension); k += 2 {
				key += p.Dimension[k] + "=" + p.Dimension[k+1] + ";"
			}
			got[key] += int(p.Value)
		}
		for k := range want {
			if got[k] != want[k] {
				vcex("count", "%d goroutines, dims %q: %q counted %d times, exported %d", workers, dim, k, want[k], got[k])
				return
			}
		}
		for k := range got {
			if want[k] == 0 && got[k] != 0 {
				vcex("count", "dims %q: %q exported %d, never counted", dim, k, got[k])
				return
			}
		}
		col.points = nil
		state.GetWindow().Export(time.Now())
		for _, p := range col.points {
			if p.Value != 0 {
				vcex("reset", "dims %q: %v again", dim, p)
				return
			}
		}
	}
	var a, b CounterMonoid = 3, 4
	a.Add(&b)
	if a != 7 || b != 4 || a.Export() != 7 || a != 0 {
		vcex("monoid", "3+4")
	}
	if msg := <-ticks; msg != "" {
		vcex("ticker", "%s", msg)
	}
}

// a window exports every second, until its context is done
func c19ticker(done chan string) {
	col := &c19collector{}
	var export func(context.Context)
	w := newC19window(col, &export)
	ctx, cancel := context.WithCancel(context.Background())
	ended := make(chan bool)
	go func() { export(ctx); close(ended) }()
	msg := ""
	for k := 0; k < 3 && msg == ""; k++ {
		w.Handle(&spi.Event{Properties: []interface{}{"agg", "counter"}})
		deadline := time.Now().Add(10 * time.Second)
		for {
			col.mu.Lock()
			sum := 0.0
			for _, p := range col.points {
				sum += p.Value
			}
			col.mu.Unlock()
			if sum == float64(k+1) {
				break
			}
			if time.Now().After(deadline) {
				msg = fmt.Sprintf("%v exported 10 seconds after event %d", sum, k+1)
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	cancel()
	select {
	case <-ended:
	case <-time.After(10 * time.Second):
		msg += " the export goes on after its context is done"
	}
	done <- msg
}

func newC19window(col Collector, export *func(context.Context)) State {
	agg := NewEventAggregator(EventAggregatorConfig{Collector: col, Executor: func(f func(context.Context)) { *export = f }})
	return agg.HandlerOf(&spi.LogSite{Event: "e", Sample: []interface{}{"agg", "counter"}}).(State)
}
