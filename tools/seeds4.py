SEEDS=[
dict(id='B18',prop='C23',pkg='countlog/output',
 edits=[('countlog/output/writer.go','''	n, err := writer.writer.Write(buf)
	bufPool.Put(buf)
	return n, err''','''	bufPool.Put(buf)
	return writer.writer.Write(buf)''')],
 demo='''package output_test
import ("testing";"time";"strings";"runtime/debug";"github.com/v2pro/plz/countlog/output";"github.com/v2pro/plz/countlog/output/compact";"github.com/v2pro/plz/countlog/spi")
type rw struct { h spi.EventHandler; n int; got []string }
func (w *rw) Write(p []byte) (int, error) {
  w.n++
  if w.n == 1 { for i := 0; i < 3; i++ { w.h.Handle(&spi.Event{Timestamp: time.Unix(0,0), Properties: []interface{}{"k","YYYYY"}}) } }
  w.got = append(w.got, string(p)); return len(p), nil
}
func TestDemo(t *testing.T) {
  debug.SetGCPercent(-1)
  w := &rw{}
  s := output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: w})
  w.h = s.HandlerOf(&spi.LogSite{Event: "event!x", Sample: []interface{}{"k","v"}})
  for i := 0; i < 20; i++ { w.n = 0; w.got = nil
    w.h.Handle(&spi.Event{Timestamp: time.Unix(0,0), Properties: []interface{}{"k","XXXXX"}})
    if len(w.got) != 4 || !strings.HasSuffix(w.got[3], "k=XXXXX\\n") { t.Fatalf("%q", w.got) } }
}''',
 needs='a writer that itself logs (or another goroutine that logs) while it is given the line',
 breaks='the line is overwritten by another event before it is written'),
dict(id='B19',prop='C25',pkg='countlog/output/hrf',
 edits=[('countlog/output/hrf/location.go','event.Level >= spi.LevelWarn','event.Level > spi.LevelWarn')],
 demo='''package hrf
import ("testing";"strings";"github.com/v2pro/plz/countlog/spi")
func TestDemo(t *testing.T) {
  f := (&Format{}).FormatterOf(&spi.LogSite{Event: "event!x", File: "a.go", Line: 3})
  if s := string(f.Format(nil, &spi.Event{Level: spi.LevelWarn})); !strings.Contains(s, "a.go:3") { t.Fatalf("%q", s) }
  if s := string(f.Format(nil, &spi.Event{Level: spi.LevelInfo})); strings.Contains(s, "a.go:3") { t.Fatalf("%q", s) }
}''',
 needs='an event at exactly the level WARN',
 breaks='warnings are written without their location'),
dict(id='B20',prop='C25',pkg='countlog/output/compact',
 edits=[('countlog/output/compact/error.go','''	space = append(space, " error:"...)
	return append(space, msg...)''','''	space = append(append(space[:0:len(space)], space...), " error:"...)
	if msg[len(msg)-1] == '\\n' {
		msg = msg[:len(msg)-1]
	}
	return append(space, msg...)''')],
 demo='''package compact
import ("testing";"errors";"strings";"github.com/v2pro/plz/countlog/spi")
func TestDemo(t *testing.T) {
  f := (&Format{}).FormatterOf(&spi.LogSite{Event: "event!x"})
  if s := string(f.Format(nil, &spi.Event{Error: errors.New("e\\n")})); !strings.HasSuffix(s, " error:e\\n\\n") { t.Fatalf("%q", s) }
  if s := string(f.Format(nil, &spi.Event{Error: errors.New("e")})); !strings.HasSuffix(s, " error:e\\n") { t.Fatalf("%q", s) }
}''',
 needs='an error with a text that ends in a newline',
 breaks='the last character of the error text is lost'),
dict(id='B21',prop='C26',pkg='countlog/output/json',
 edits=[('countlog/output/json/json.go','reflect2.PtrOf(event.Timestamp.UnixNano())','reflect2.PtrOf(event.Timestamp.Unix()*1e9+int64(event.Timestamp.Nanosecond())/1e3*1e3)')],
 demo='''package json
import ("testing";"time";"strings";"github.com/v2pro/plz/countlog/spi")
func TestDemo(t *testing.T) {
  f := (&JsonFormat{}).FormatterOf(&spi.LogSite{Event: "event!x"})
  if s := string(f.Format(nil, &spi.Event{Timestamp: time.Unix(5, 123456789)})); !strings.Contains(s, "5123456789") { t.Fatalf("%q", s) }
}''',
 needs='a timestamp that is not a whole number of microseconds',
 breaks='the timestamp in the line is not the one of the event'),
dict(id='B22',prop='C25',pkg='countlog/output',
 edits=[('countlog/output/format.go','''	for _, formatter := range formatters {
		space = formatter.Format(space, event)
	}
	return space''','''	for _, formatter := range formatters {
		before := len(space)
		space = formatter.Format(space, event)
		if len(space) == before && len(formatters) > 24 {
			break
		}
	}
	return space''')],
 demo='''package output_test
import ("testing";"strings";"github.com/v2pro/plz/countlog/output/compact";"github.com/v2pro/plz/countlog/spi")
func TestDemo(t *testing.T) {
  p := []interface{}{}
  for i := 0; i < 20; i++ { p = append(p, "k"+string(rune('a'+i)), i) }
  f := (&compact.Format{}).FormatterOf(&spi.LogSite{Event: "event!x", Sample: p})
  if s := string(f.Format(nil, &spi.Event{Properties: p})); !strings.HasSuffix(s, "||ks=18||kt=19\\n") { t.Fatalf("%q", s) }
}''',
 needs='a line of more than twenty-four parts of which one is empty (no error)',
 breaks='the rest of the line is missing'),
]
