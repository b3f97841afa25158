SEEDS=[
dict(id='B27',prop='C16',pkg='gls',
 edits=[('gls/gls.go','''		ResetGls(goid, childGls)
		defer DeleteGls(goid)
		f()
''','''		ResetGls(goid, childGls)
		f()
		DeleteGls(goid)
''')],
 demo='''package gls
import "testing"
func TestDemo(t *testing.T) {
  id := make(chan int64)
  go func() {
    defer func() { recover(); id <- GoID() }()
    WithGls(func() { Set("a", 1); panic("x") })()
  }()
  g := <-id
  if GetGls(g) != nil { t.Fatalf("storage of goroutine %d left behind: %v", g, GetGls(g)) }
}''',
 needs='a function that panics', breaks='the storage stays behind after the goroutine has ended'),
dict(id='B28',prop='C16',pkg='gls',
 edits=[('gls/gls.go','''	shardIndex := goid % shardsCount
	lock := globalLocks[shardIndex]
	lock.Lock()
	delete(''','''	shardIndex := goid % shardsCount
	lock := globalLocks[shardIndex/2]
	lock.Lock()
	delete(''')],
 demo='''package gls
import ("testing";"time")
func TestDemo(t *testing.T) {
  ResetGls(5, map[interface{}]interface{}{1: 1})
  done := make(chan bool)
  globalLocks[5].Lock()
  go func() { DeleteGls(5); close(done) }()
  select {
  case <-done: t.Fatal("DeleteGls changed the shard while another goroutine holds its lock")
  case <-time.After(300*time.Millisecond):
  }
  globalLocks[5].Unlock()
  <-done
}''',
 needs='two goroutines of one shard, one of them ending at that moment', breaks='a map is changed under the wrong lock'),
dict(id='B29',prop='C16',pkg='gls',
 edits=[('gls/gls.go','''	return func() {
		goid := GoID()
		ResetGls(goid, make(map[interface{}]interface{}))
''','''	initial := map[interface{}]interface{}{}
	return func() {
		goid := GoID()
		ResetGls(goid, initial)
''')],
 demo='''package gls
import "testing"
func TestDemo(t *testing.T) {
  var seen []interface{}
  f := WithEmptyGls(func() { seen = append(seen, Get("a")); Set("a", 1) })
  f()
  f()
  if seen[1] != nil { t.Fatal("the second run sees the storage of the first") }
}''',
 needs='a wrapped function that is run twice', breaks='the runs share one storage'),
dict(id='B30',prop='C22',pkg='.',
 edits=[('closer.go','''	var nonNilErrs []error
''','''	nonNilErrs := errs[:0]
''')],
 demo='''package plz
import ("testing";"errors")
func TestDemo(t *testing.T) {
  a, b := errors.New("a"), errors.New("b")
  in := []error{nil, a, b}
  MergeErrors(in...)
  if in[0] != nil || in[1] != a || in[2] != b { t.Fatal("argument changed:", in) }
}''',
 needs='a list with a nil before an error, used again after the call', breaks='the list of the caller is overwritten'),
dict(id='B31',prop='C22',pkg='.',
 edits=[('closer.go','''	for _, resource := range resources {
		err := resource.Close()
		if err != nil {
''','''	for i, resource := range resources {
		err := resource.Close()
		if err != nil && (i == 0 || len(errs) == 0 || err != errs[len(errs)-1]) {
''')],
 demo='''package plz
import ("testing";"errors";"io")
func TestDemo(t *testing.T) {
  e := errors.New("e")
  c := WrapCloser(func() error { return e })
  err := CloseAll([]io.Closer{c, c, c})
  if m, ok := err.(MultiError); !ok || len(m) != 3 { t.Fatalf("%#v", err) }
}''',
 needs='two resources in a row that fail with the same error value', breaks='an error is lost'),
]
