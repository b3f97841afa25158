package concurrent_test

import (
	"context"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/v2pro/plz/concurrent"
)

func TestVerifC27(t *testing.T) {
	defer vdone(t)
	r := vrand()
	var mu sync.Mutex
	var logged []interface{}
	concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} {
		mu.Lock()
		defer mu.Unlock()
		logged = append(logged, recovered)
		return recovered
	}
	n := vscale(30, 300)
	for i := 0; i < n; i++ {
		logged = nil
		e := concurrent.NewUnboundedExecutor()
		var running, ended int64
		want := map[string]int{}
		k := r.Intn(12)
		for j := 0; j < k; j++ {
			j := j
			how := r.Intn(6)
			d := time.Duration(r.Intn(3)) * time.Millisecond
			if how == 4 {
				want[fmt.Sprint("boom", j)]++
			}
			atomic.AddInt64(&running, 1)
			body := func(ctx context.Context) {
				defer atomic.AddInt64(&ended, 1)
				switch how {
				case 0:
				case 1:
					time.Sleep(d)
				case 2, 3:
					<-ctx.Done()
					time.Sleep(d)
				case 4:
					time.Sleep(d)
					panic(fmt.Sprint("boom", j))
				case 5:
					panic(concurrent.StopSignal)
				}
			}
			if j%2 == 0 {
				e.Go(body)
			} else {
				e.Go(body)
			}
		}
		p := vguard(20*time.Second, func() {
			if r.Intn(3) == 0 {
				e.Stop()
			}
			e.StopAndWaitForever()
		})
		vcount(fmt.Sprint(k))
		if p != "" || atomic.LoadInt64(&ended) != int64(k) {
			vcex("wait", "StopAndWaitForever returned with %d of %d goroutines ended %s", ended, k, p)
			return
		}
		mu.Lock()
		for _, l := range logged {
			want[fmt.Sprint(l)]--
		}
		mu.Unlock()
		for m, c := range want {
			if c != 0 {
				vcex("panic", "panic %v reported %d times too few", m, c)
				return
			}
		}
	}
	// who is waited for is told by where it was started
	var places []string
	oldInfo := concurrent.LogInfo
	concurrent.LogInfo = func(event string, properties ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		for k := 0; k+1 < len(properties); k += 2 {
			if properties[k] == "startFrom" {
				places = append(places, fmt.Sprint(properties[k+1]))
			}
		}
	}
	w := concurrent.NewUnboundedExecutor()
	_, file, line, _ := runtime.Caller(0)
	w.Go(func(ctx context.Context) { time.Sleep(250 * time.Millisecond) })
	func() { w.Go(func(ctx context.Context) {}) }()
	if p := vguard(20*time.Second, w.StopAndWaitForever); p != "" {
		vcex("wait", "StopAndWaitForever does not return: %s", p)
		return
	}
	concurrent.LogInfo = oldInfo
	mu.Lock()
	for _, p := range places {
		if p != fmt.Sprintf("%s:%d", file, line+1) {
			vcex("place", "a goroutine started at %s:%d is counted under %s", file, line+1, p)
		}
	}
	mu.Unlock()
	// waiting ends with the context
	e := concurrent.NewUnboundedExecutor()
	stop := make(chan bool)
	e.Go(func(ctx context.Context) { <-stop })
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Millisecond)
	defer cancel()
	if p := vguard(5*time.Second, func() { e.StopAndWait(ctx) }); p != "" {
		vcex("wait", "StopAndWait does not end with its context: %s", p)
	}
	close(stop)
	runtime.Gosched()
}
