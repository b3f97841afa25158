package async_test

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output/async"
)

type c24writer struct {
	mu     sync.Mutex
	got    []string
	fail   int
	closed int
	failed int64
	delay  time.Duration
	gate   chan bool
}

func (w *c24writer) Write(p []byte) (int, error) {
	if w.gate != nil {
		<-w.gate
	}
	if w.delay > 0 {
		time.Sleep(w.delay)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.got = append(w.got, string(p))
	if w.fail > 0 && len(w.got)%w.fail == 0 {
		w.failed++
		return 0, errors.New("failed")
	}
	return len(p), nil
}
func (w *c24writer) Close() error { w.closed++; return errors.New("closed") }


func TestVerifC24(t *testing.T) {
	defer vdone(t)
	var reports int64
	loglog.Error = func(err error) { atomic.AddInt64(&reports, 1) }
	r := vrand()
	n := vscale(25, 250)
	for i := 0; i < n; i++ {
		w := &c24writer{fail: r.Intn(4)}
		atomic.StoreInt64(&reports, 0)
		blocking := r.Intn(2) == 0
		qlen := []int{0, 1, 2, 1000}[r.Intn(4)]
		if r.Intn(3) == 0 {
			w.delay = time.Duration(r.Intn(300)) * time.Microsecond
		}
		gated := !blocking && r.Intn(2) == 0
		if gated {
			w.gate = make(chan bool)
			qlen = 1 + r.Intn(2)
		}
		var mu sync.Mutex
		var dropped []string
		cfg := async.AsyncWriterConfig{QueueLength: qlen, Writer: w, IsQueueBlocking: blocking}
		release := gated && r.Intn(2) == 0
		cfg.OnMessageDropped = func(m []byte) {
			mu.Lock()
			dropped = append(dropped, string(m))
			mu.Unlock()
			for k := 0; release && k < 2; k++ { // the queue gets room again while the message is dropped
				select {
				case w.gate <- true:
				case <-time.After(time.Millisecond):
				}
			}
		}
		aw := async.NewAsyncWriter(cfg)
		total := 1 + r.Intn(60)
		workers := 1 + r.Intn(3)
		bad := vguard(20*time.Second, func() {
			var wg sync.WaitGroup
			for g := 0; g < workers; g++ {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					buf := make([]byte, 0, 64)
					for k := 0; k < total; k++ {
						buf = append(buf[:0], fmt.Sprintf("%d/%d", g, k)...)
						if m, err := aw.Write(buf); m != len(buf) || err != nil {
							vcex("result", "Write = %d, %v", m, err)
						}
						for j := range buf {
							buf[j] = '#'
						}
					}
				}()
			}
			wg.Wait()
			if gated {
				close(w.gate)
			}
			err := aw.Close()
			if w.closed != 1 || err == nil || err.Error() != "closed" {
				vcex("close", "writer closed %d times, Close = %v", w.closed, err)
			}
		})
		vcount(fmt.Sprintf("%v-%v-%v", blocking, gated, qlen))
		w.mu.Lock()
		if got := atomic.LoadInt64(&reports); bad == "" && got != w.failed {
			bad = fmt.Sprintf(" %d failed writes and %d reports", w.failed, got)
		}
		count := map[string]int{}
		last := map[byte]int{}
		for _, m := range w.got {
			count[m]++
			var g, k int
			fmt.Sscanf(m, "%d/%d", &g, &k)
			if p, seen := last[byte(g)]; seen && k < p {
				bad += " out of order"
			}
			last[byte(g)] = k
		}
		mu.Lock()
		for _, m := range dropped {
			count[m]++
		}
		if blocking && len(dropped) > 0 {
			bad += " dropped though blocking"
		}
		mu.Unlock()
		w.mu.Unlock()
		for g := 0; g < workers; g++ {
			for k := 0; k < total; k++ {
				if c := count[fmt.Sprintf("%d/%d", g, k)]; c != 1 {
					bad += fmt.Sprintf(" message %d/%d written or dropped %d times", g, k, c)
					break
				}
			}
		}
		if bad != "" {
			vcex("delivery", "blocking=%v queue=%d fail=%d gated=%v workers=%d total=%d:%s", blocking, qlen, w.fail, gated, workers, total, bad)
			return
		}
	}
	// a writer that can not be closed
	w := &c24writer{}
	aw := async.NewAsyncWriter(async.AsyncWriterConfig{Writer: c24w{w}})
	if err := aw.Close(); err != nil || w.closed != 0 {
		vcex("close", "Close of a plain writer = %v", err)
	}
}

type c24w struct{ w *c24writer }

func (w c24w) Write(p []byte) (int, error) { return w.w.Write(p) }
