J='''package jsonfmt_test
import ("testing";"github.com/v2pro/plz/msgfmt/jsonfmt")
func TestDemo(t *testing.T) {
%s
}
'''
SEEDS=[
dict(id='B04',prop='C05',pkg='msgfmt/jsonfmt',
 edits=[('msgfmt/jsonfmt/encoder.go','''	if parts[0] == "" {
		return field.Name()
	}
	return parts[0]''','''	return strings.TrimSpace(parts[0])''')],
 demo=J%'if s:=jsonfmt.MarshalToString(struct{A int; B int `json:",omitempty"`}{1,2}); s!=`{"A":1,"B":2}` { t.Fatal(s) }',
 needs='a struct field with a json tag that has options but no name',
 breaks='the field is missing from the JSON of the struct'),
dict(id='B05',prop='C05',pkg='msgfmt/jsonfmt',
 edits=[('msgfmt/jsonfmt/encoder_dynamic.go','''	obj := encoder.valType.UnsafeIndirect(ptr)
	if obj == nil {''','''	obj := encoder.valType.UnsafeIndirect(ptr)
	if reflect2.IsNil(obj) {''')],
 demo='''package jsonfmt_test
import ("testing";"github.com/v2pro/plz/msgfmt/jsonfmt")
func TestDemo(t *testing.T) {
  if s:=jsonfmt.MarshalToString([]interface{}{[1]*int{nil}, 1}); s!=`[[null],1]` { t.Fatal(s) }
}
''',
 needs='a value of pointer shape (an array of one nil pointer) held in an interface inside another value',
 breaks='an array of one nil pointer is written as null instead of as [null]'),dict(id='B07',prop='C07',pkg='parse/read',
 edits=[('parse/read/int.go','''		if val > math.MaxInt64+1 {''','''		if val >= math.MaxInt64+1 {''')],
 demo='''package read_test
import ("testing";"io";"github.com/v2pro/plz/parse";"github.com/v2pro/plz/parse/read")
func TestDemo(t *testing.T) {
  src := parse.NewSourceString("-9223372036854775808")
  if v := read.Int64(src); v != -9223372036854775808 || src.Error() != io.EOF { t.Fatal(v, src.Error()) }
}
''',
 needs='exactly the smallest int64',
 breaks='the smallest int64 is reported as overflow'),
dict(id='B08',prop='C08',pkg='parse',
 edits=[('parse/parse.go','''		peeked = append(peeked, next...)
		src.nextList = append(src.nextList, next)
		if len(peeked) >= n {
			return peeked[:n], nil
		}
''','''		peeked = append(peeked, next...)
		if err == nil || len(peeked) >= n {
			src.nextList = append(src.nextList, next)
		}
		if len(peeked) >= n {
			return peeked[:n], nil
		}
''')],
 demo='''package parse_test
import ("testing";"io";"github.com/v2pro/plz/parse")
type rd struct{ i int }
func (r *rd) Read(p []byte) (int, error) {
  r.i++
  switch r.i {
  case 1: return copy(p, "ab"), nil
  case 2: return copy(p, "cd"), io.EOF
  }
  return 0, io.EOF
}
func TestDemo(t *testing.T) {
  src, err := parse.NewSource(&rd{}, make([]byte, 2))
  if err != nil { t.Fatal(err) }
  src.PeekN(6)
  out := ""
  for src.Error() == nil { out += string(src.Peek()); src.Consume() }
  if out != "abcd" { t.Fatal(out) }
}
''',
 needs='a lookahead past the end of the stream, when the reader returns its last bytes together with io.EOF',
 breaks='the last bytes of the stream are never delivered'),
dict(id='B09',prop='C10',pkg='parse/read',
 edits=[('parse/read/any.go','''		for i := 0; i < len(buf); i++ {
			b := buf[i]
			if b == b1 || b == b2 {
				src.ConsumeN(i)
				return space
			}
			space = append(space, b)
		}
		src.Consume()
''','''		for i := 0; i < len(buf); i++ {
			b := buf[i]
			if b == b1 || b == b2 {
				src.ConsumeN(i)
				return append(space, buf[:i]...)
			}
		}
		src.Consume()
		space = append(space, buf...)
''')],
 demo='''package read_test
import ("testing";"strings";"github.com/v2pro/plz/parse";"github.com/v2pro/plz/parse/read")
func TestDemo(t *testing.T) {
  src, err := parse.NewSource(strings.NewReader("abcdefgh}x"), make([]byte, 3))
  if err != nil { t.Fatal(err) }
  if s := string(read.AnyExcept2(src, nil, ',', '}')); s != "abcdefgh" { t.Fatal(s) }
}
''',
 needs='a run that crosses a refill of the buffer (the bytes are copied after the refill has overwritten them)',
 breaks='the bytes appended are not those of the run'),
dict(id='B10',prop='C10',pkg='parse/skip',
 edits=[('parse/skip/range.go','''			src.ConsumeN(n)
			count += n
			continue
		}
		return count''','''			src.ConsumeN(n)
			count++
			continue
		}
		return count''')],
 demo='''package skip_test
import ("testing";"unicode";"github.com/v2pro/plz/parse";"github.com/v2pro/plz/parse/skip")
func TestDemo(t *testing.T) {
  if n := skip.UnicodeRange(parse.NewSourceString("\\u00e9\\u00e9a1"), unicode.Letter); n != 5 { t.Fatal(n) }
}
''',
 needs='a rune of more than one byte in the range',
 breaks='the number returned is not the number of bytes skipped'),
dict(id='B11',prop='C12',pkg='msgfmt',
 edits=[('msgfmt/msgfmt.go','''	n, err := writer.Write(formatted)
	bufPool.Put(formatted)
	return n, err''','''	bufPool.Put(formatted)
	return writer.Write(formatted)''')],
 demo='''package msgfmt_test
import ("testing";"bytes";"github.com/v2pro/plz/msgfmt")
type w struct{ b bytes.Buffer; in int }
func (x *w) Write(p []byte) (int, error) {
  if x.in == 0 { x.in++; for i := 0; i < 4; i++ { msgfmt.Fprintf(&bytes.Buffer{}, "{a}XXXXXXXXXXXX", "a", "yyyy") } }
  return x.b.Write(p)
}
func TestDemo(t *testing.T) {
  for i := 0; i < 50; i++ {
    x := &w{}
    msgfmt.Fprintf(x, "{k} and more", "k", "value")
    if x.b.String() != "value and more" { t.Fatal(x.b.String()) }
  }
}
''',
 needs='a writer that itself prints a message while it handles the write (or another goroutine that prints)',
 breaks='the message written is overwritten by another message'),
dict(id='B12',prop='C12',pkg='msgfmt',
 edits=[('msgfmt/formatter.go','''	for i := 0; i < len(sample); i += 2 {
		key := sample[i].(string)
		if key == target {
			return i + 1
		}
	}
	return -1''','''	idx := -1
	for i := 0; i < len(sample); i += 2 {
		key := sample[i].(string)
		if len(key) == len(target) && (idx == -1 || key == target) {
			idx = i + 1
		}
	}
	return idx''')],
 demo='''package msgfmt_test
import ("testing";"strings";"github.com/v2pro/plz/msgfmt")
func TestDemo(t *testing.T) {
  if s := msgfmt.Sprintf("{aa}-{bb}", "aa", "1", "bb", "2"); s != "1-2" { t.Fatal(s) }
  if s := msgfmt.Sprintf("<{ab}>", "xy", "1"); !strings.Contains(s, "INVALID FORMAT") { t.Fatal(s) }
}
''',
 needs='a key that is not among the values, of the same length as one that is',
 breaks='another value is written in place of a missing one'),
dict(id='B13',prop='C13',pkg='msgfmt',
 edits=[('msgfmt/formatter_bytes.go','''	if start < len(s) {
		space = append(space, s[start:]...)''','''	if start < len(s)-1 {
		space = append(space, s[start:]...)''')],
 demo='''package msgfmt_test
import ("testing";"github.com/v2pro/plz/msgfmt")
func TestDemo(t *testing.T) {
  if s := msgfmt.Sprintf("{v}", "v", []byte("a\\nbc")); s != "a\\\\nbc" { t.Fatal(s) }
  if s := msgfmt.Sprintf("{v}", "v", []byte("a\\nb")); s != "a\\\\nb" { t.Fatal(s) }
}
''',
 needs='exactly one plain byte after the last escaped one',
 breaks='the last byte is lost'),
dict(id='B14',prop='C17',pkg='countlog',
 edits=[('countlog/context.go','''	if err != nil {
		ptr := unsafe.Pointer(&properties)
		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
	}
	if LevelDebug < spi.MinLevel {
		return nil
	}
''','''	if LevelDebug < spi.MinLevel {
		return nil
	}
	if err != nil {
		ptr := unsafe.Pointer(&properties)
		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
	}
''')],
 demo='''package countlog_test
import ("testing";"context";"errors";"github.com/v2pro/plz/countlog";"github.com/v2pro/plz/countlog/spi")
type sink struct{ n int }
func (s *sink) HandlerOf(site *spi.LogSite) spi.EventHandler { return &h{s, site} }
type h struct{ s *sink; site *spi.LogSite }
func (x *h) Handle(e *spi.Event) { x.s.n++ }
func (x *h) LogSite() *spi.LogSite { return x.site }
func TestDemo(t *testing.T) {
  s := &sink{}
  countlog.EventWriter = s
  countlog.SetMinLevel(countlog.LevelInfo)
  err := countlog.Ctx(context.Background()).DebugCall("event!demo.debugcall", errors.New("x"))
  if s.n != 1 || err == nil { t.Fatal(s.n, err) }
}
''',
 needs='a DebugCall on a Context with an error while the minimum level is above Debug',
 breaks='the error of the call is neither logged nor returned'),
dict(id='B15',prop='C18',pkg='countlog',
 edits=[('countlog/root.go','''	loglog.Error(fmt.Errorf("%v", recovered))''','''	err, isErr := recovered.(error)
	if !isErr {
		err = fmt.Errorf("%s", recovered.(string))
	}
	loglog.Error(err)''')],
 demo='''package countlog_test
import ("testing";"github.com/v2pro/plz/countlog";"github.com/v2pro/plz/countlog/spi")
type sink struct{}
func (s *sink) HandlerOf(site *spi.LogSite) spi.EventHandler { return &h{site} }
type h struct{ site *spi.LogSite }
func (x *h) Handle(e *spi.Event) { panic(42) }
func (x *h) LogSite() *spi.LogSite { return x.site }
func TestDemo(t *testing.T) {
  countlog.EventWriter = &sink{}
  countlog.Warn("event!demo.panics")
  countlog.Warn("event!demo.panics")
}
''',
 needs='a handler that panics twice, with a value that is neither an error nor a string',
 breaks='the panic reaches the code that logs'),
]
