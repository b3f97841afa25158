SEEDS=[
dict(id='B40',prop='C18',pkg='countlog',
 edits=[('countlog/root.go','''	key := accurateHandlerKey{redirector.site.Event, callerFile, callerLine}
''','''	key := accurateHandlerKey{File: callerFile, Line: callerLine}
''')],
 demo='''package countlog
import ("testing";"github.com/v2pro/plz/countlog/spi")
type demoSink struct { first map[string]bool; bad string; n int }
func (s *demoSink) HandlerOf(site *spi.LogSite) spi.EventHandler {
  name := site.Event
  return spi.FuncEventHandler(func(event *spi.Event) {
    if !s.first[name] { s.first[name] = true; panic("boom") }
    s.n++
    if len(event.Properties) != 2 || event.Properties[1] != name { s.bad = name }
  })
}
func TestDemo(t *testing.T) {
  s := &demoSink{first: map[string]bool{}}
  old := EventWriter
  EventWriter = s
  defer func() { EventWriter = old }()
  for k := 0; k < 4; k++ {
    for _, name := range []string{"event!demo one", "event!demo two"} {
      Warn(name, "name", name)
    }
  }
  if s.bad != "" { t.Fatal("the handler made for " + s.bad + " handles an event of another name") }
  if s.n == 0 { t.Fatal("nothing delivered") }
}''',
 needs='two event names logged by the same line of code, after a handler of each has panicked', breaks='events are delivered to the handler made for another name'),
dict(id='B41',prop='C24',pkg='countlog/output/async',
 edits=[('countlog/output/async/async.go','''					_, err := writer.writer.Write(buf)
					if err != nil {
						loglog.Error(err)
					}
				default:
''','''					if _, err := writer.writer.Write(buf); err == nil {
						timer.Reset(time.Second)
					}
				default:
''')],
 demo='''package async
import ("testing";"errors";"sync/atomic";"github.com/v2pro/plz/countlog/loglog")
type demoW struct { gate chan bool; n int64 }
func (w *demoW) Write(p []byte) (int, error) { <-w.gate; atomic.AddInt64(&w.n, 1); return 0, errors.New("disk full") }
func TestDemo(t *testing.T) {
  var reports int64
  old := loglog.Error
  loglog.Error = func(err error) { atomic.AddInt64(&reports, 1) }
  defer func() { loglog.Error = old }()
  for k := 0; k < 5; k++ {
    atomic.StoreInt64(&reports, 0)
    w := &demoW{gate: make(chan bool, 100)}
    a := NewAsyncWriter(AsyncWriterConfig{Writer: w, IsQueueBlocking: true, QueueLength: 100})
    for i := 0; i < 20; i++ { a.Write([]byte("x")) }
    done := make(chan bool)
    go func() { a.Close(); close(done) }()
    for i := 0; i < 20; i++ { w.gate <- true }
    <-done
    if atomic.LoadInt64(&w.n) != atomic.LoadInt64(&reports) { t.Fatalf("%d failed writes, %d reports", w.n, reports) }
  }
}''',
 needs='a write that fails while the queue is drained after Close', breaks='the failed write is not reported'),
]
