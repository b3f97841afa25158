SEEDS=[
dict(id='B23',prop='C24',pkg='countlog/output/async',
 edits=[('countlog/output/async/async.go','''					_, err := writer.writer.Write(buf)
					if err != nil {
						loglog.Error(err)
					}
				default''','''					_, err := writer.writer.Write(buf)
					if err != nil {
						loglog.Error(err)
						return
					}
				default''')],
 demo='''package async
import ("testing";"errors";"fmt";"github.com/v2pro/plz/countlog/loglog")
type fw struct { got []string; gate chan bool }
func (w *fw) Write(p []byte) (int, error) {
  if w.gate != nil { <-w.gate }
  w.got = append(w.got, string(p)); if len(w.got)%3 == 2 { return 0, errors.New("x") }; return len(p), nil
}
func TestDemo(t *testing.T) {
  loglog.Error = func(error) {}
  for r := 0; r < 10; r++ {
    w := &fw{gate: make(chan bool)}
    a := NewAsyncWriter(AsyncWriterConfig{Writer: w, IsQueueBlocking: true})
    for i := 0; i < 20; i++ { fmt.Fprintf(a, "%d", i) }
    bw := a.(*blockingQueueWriter)
    bw.executor.Stop()
    close(w.gate)
    a.Close()
    if len(w.got) != 20 { t.Fatalf("%d written: %q", len(w.got), w.got) }
  }
}''',
 needs='a write that fails while the queue is drained at Close',
 breaks='the messages queued behind the failed one are lost'),
dict(id='B24',prop='C27',pkg='concurrent',
 edits=[('concurrent/unbounded_executor.go','''			if recovered != nil && recovered != StopSignal {
				LogPanic(recovered)
			}
''','''			if recovered == StopSignal {
				return
			}
			if recovered != nil {
				LogPanic(recovered)
			}
''')],
 demo='''package concurrent
import ("testing";"context";"time")
func TestDemo(t *testing.T) {
  e := NewUnboundedExecutor()
  e.Go(func(ctx context.Context) { <-ctx.Done(); panic(StopSignal) })
  e.Go(func(ctx context.Context) { <-ctx.Done() })
  done := make(chan bool)
  go func() { e.StopAndWaitForever(); close(done) }()
  select { case <-done: case <-time.After(5*time.Second): t.Fatal("still waiting") }
}''',
 needs='a function that ends by panicking with the stop signal',
 breaks='its counter stays positive and StopAndWaitForever never returns'),
dict(id='B25',prop='C27',pkg='concurrent',
 edits=[('concurrent/unbounded_executor.go','''	executor.cancel()
	for {
		fiveSeconds''','''	executor.cancel()
	executor.checkGoroutines()
	for wait := true; wait; wait = len(executor.activeGoroutines) > 0 {
		fiveSeconds''')],
 demo='''package concurrent
import ("testing")
func TestDemo(t *testing.T) { t.Skip() }''',
 needs='', breaks=''),
dict(id='B26',prop='C24',pkg='countlog/output/async',
 edits=[('countlog/output/async/async.go','''	case writer.queue <- append([]byte(nil), buf...):
	default:
		writer.onMessageDropped(buf)
	}
	return len(buf), nil''','''	case writer.queue <- append([]byte(nil), buf...):
	default:
		writer.onMessageDropped(buf)
		if len(writer.queue) < cap(writer.queue) {
			writer.queue <- append([]byte(nil), buf...)
		}
	}
	return len(buf), nil''')],
 demo='''package async
import ("testing";"fmt")
type gw struct { gate chan bool; got []string }
func (w *gw) Write(p []byte) (int, error) { <-w.gate; w.got = append(w.got, string(p)); return len(p), nil }
func TestDemo(t *testing.T) {
  w := &gw{gate: make(chan bool)}
  var a ClosableWriter
  drops := map[string]int{}
  a = NewAsyncWriter(AsyncWriterConfig{Writer: w, QueueLength: 1, OnMessageDropped: func(m []byte) {
    drops[string(m)]++; w.gate <- true
    for i := 0; i < 1000 && len(a.(*nonBlockingQueueWriter).queue) > 0; i++ { select { case w.gate <- true: default: } } }})
  for i := 0; i < 40; i++ { fmt.Fprintf(a, "%d", i) }
  close(w.gate); a.Close()
  for _, m := range w.got { drops[m]++ }
  for i := 0; i < 40; i++ { if c := drops[fmt.Sprint(i)]; c != 1 { t.Fatalf("%d: %d times", i, c) } }
}''',
 needs='a queue that is full at first and has room when the dropped-message callback returns',
 breaks='the message is reported as dropped and written all the same'),
]
SEEDS=[s for s in SEEDS if s['id']!='B25']
