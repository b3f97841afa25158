package gls

import (
	"fmt"
	"sync"
	"testing"
	"time"
)

type c16copy struct{ n int }

func (c *c16copy) Copy() interface{} { return &c16copy{c.n + 1000} }

func TestVerifC16(t *testing.T) {
	defer vdone(t)
	r := vrand()
	n := vscale(60, 1000)
	for i := 0; i < n; i++ {
		workers := 1 + r.Intn(40)
		steps := 1 + r.Intn(20)
		seed := r.Int63()
		var mu sync.Mutex
		bad := ""
		fail := func(f string, a ...interface{}) {
			mu.Lock()
			if bad == "" {
				bad = fmt.Sprintf(f, a...)
			}
			mu.Unlock()
		}
		var ids []int64
		hang := vguard(20*time.Second, func() {
			var wg sync.WaitGroup
			for g := 0; g < workers; g++ {
				g := g
				wg.Add(1)
				body := func() {
					mu.Lock()
					ids = append(ids, GoID())
					mu.Unlock()
					if !IsGlsEnabled(GoID()) {
						fail("storage not enabled inside the function")
					}
					want := map[interface{}]interface{}{}
					for s := 0; s < steps; s++ {
						x := (seed>>uint(s%40) + int64(g*7+s)) % 11
						k, v := fmt.Sprint("k", x%5), fmt.Sprint(g, "/", s)
						if x%3 == 0 {
							if got := Get(k); got != want[k] {
								fail("Get(%v) = %v, want %v", k, got, want[k])
							}
						} else {
							Set(k, v)
							want[k] = v
						}
					}
					for k, v := range want {
						if Get(k) != v {
							fail("Get(%v) = %v, want %v", k, Get(k), v)
						}
					}
					// the child gets copies, the parent does not see what it sets
					c := &c16copy{g}
					Set("copy", c)
					done := make(chan bool)
					go func() {
						defer close(done)
						defer func() {
							if rec := recover(); rec != "child" {
								fail("panic of the function was lost: %v", rec)
							}
							if IsGlsEnabled(GoID()) {
								fail("storage kept after a panic")
							}
						}()
						WithGls(func() { panic("child") })()
					}()
					<-done
					child := WithGls(func() {
						for k, v := range want {
							if Get(k) != v {
								fail("child: Get(%v) = %v, want %v", k, Get(k), v)
							}
						}
						if cc, ok := Get("copy").(*c16copy); !ok || cc.n != g+1000 || cc == c {
							fail("child: not a copy: %v", Get("copy"))
						}
						Set("copy", 1)
						Set("only child", 1)
					})
					empty := WithEmptyGls(func() {
						if len(GetGls(GoID())) != 0 || GetGls(GoID()) == nil {
							fail("WithEmptyGls: not empty")
						}
					})
					done = make(chan bool)
					go func() { child(); empty(); close(done) }()
					<-done
					if Get("copy") != interface{}(c) || Get("only child") != nil {
						fail("the child changed the storage of its parent")
					}
				}
				f := WithGls(body)
				if g%2 == 0 {
					f = WithEmptyGls(body)
				}
				go func() {
					defer wg.Done()
					f()
					if Get("copy") != nil || IsGlsEnabled(GoID()) {
						fail("storage kept after the function has returned")
					}
				}()
			}
			wg.Wait()
		})
		vcount(fmt.Sprintf("%d-%d", workers, steps))
		for _, id := range ids {
			if GetGls(id) != nil {
				bad += " storage left behind"
				break
			}
		}
		if bad+hang != "" {
			vcex("storage", "workers=%d steps=%d seed=%d: %s%s", workers, steps, seed, bad, hang)
			return
		}
	}
	// a wrapped function run again starts with an empty storage
	again := WithEmptyGls(func() {
		if Get("again") != nil {
			vcex("again", "the second run of a function of WithEmptyGls sees the storage of the first")
		}
		Set("again", 1)
	})
	again()
	again()
	// direct use by id
	for i := 0; i < n; i++ {
		a, b := r.Int63n(1<<40), r.Int63n(1<<40)
		if r.Intn(2) == 0 {
			b = a + 16*r.Int63n(100)
		}
		if a == b {
			continue
		}
		m1, m2 := map[interface{}]interface{}{1: a}, map[interface{}]interface{}{1: b}
		ResetGls(a, m1)
		ResetGls(b, m2)
		if GetGls(a)[1] != a || GetGls(b)[1] != b {
			vcex("byid", "ids %d and %d share storage", a, b)
		}
		DeleteGls(a)
		if GetGls(a) != nil || GetGls(b)[1] != b {
			vcex("byid", "DeleteGls(%d) left %v, and %v for %d", a, GetGls(a), GetGls(b), b)
		}
		DeleteGls(b)
	}
	// what a child goroutine inherits, and what a panic leaves
	for i := 0; i < n; i++ {
		nkeys := r.Intn(6)
		pan := r.Intn(2) == 0
		msg := ""
		vguard(10*time.Second, func() {
			done := make(chan bool)
			go WithEmptyGls(func() {
				defer close(done)
				for k := 0; k < nkeys; k++ {
					if k%2 == 0 {
						Set(k, &c16copy{k})
					} else {
						Set(k, k)
					}
				}
				inner := make(chan bool)
				var id int64
				child := WithGls(func() {
					id = GoID()
					for k := 0; k < nkeys; k++ {
						if k%2 == 0 {
							c, _ := Get(k).(*c16copy)
							if c == nil || c.n != k+1000 {
								msg = fmt.Sprintf("key %d: %v, want a copy", k, Get(k))
							}
						} else if Get(k) != k {
							msg = fmt.Sprintf("key %d: %v", k, Get(k))
						}
						Set(k, "child")
					}
					Set("extra", 1)
					if pan {
						panic("x")
					}
				})
				if nkeys > 0 {
					Set(nkeys-1, nkeys-1)
				}
				go func() {
					defer close(inner)
					defer func() { recover() }()
					child()
				}()
				<-inner
				for k := 0; k < nkeys-1; k++ {
					if Get(k) == "child" {
						msg = fmt.Sprintf("key %d of the parent was set by the child", k)
					}
				}
				if Get("extra") != nil {
					msg = "the parent sees a key the child set"
				}
				if GetGls(id) != nil {
					msg = fmt.Sprintf("storage of the child left behind (panic %v)", pan)
				}
			})()
			<-done
		})
		vcount(fmt.Sprintf("inherit-%d-%v", nkeys, pan))
		if msg != "" {
			vcex("inherit", "keys=%d panic=%v: %s", nkeys, pan, msg)
			return
		}
	}
	func() {
		defer func() {
			if recover() == nil {
				vcex("set", "Set without storage did not panic")
			}
		}()
		Set(1, 1)
	}()
	if Get(1) != nil {
		vcex("get", "Get without storage = %v", Get(1))
	}
}
