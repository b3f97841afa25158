F='countlog/output/lumberjack/lumberjack.go'; P='countlog/output/lumberjack'
HEAD='''package lumberjack
import ("testing";"io/ioutil";"os";"path/filepath";"strings";"fmt";"time")
var _ = fmt.Sprint
var _ = strings.Repeat
var _ = time.Now
func tdir(t *testing.T) string { d, err := ioutil.TempDir("", "demo"); if err != nil { t.Fatal(err) }; return d }
func files(d string) (r []string) {
  infos, _ := ioutil.ReadDir(d)
  for _, i := range infos { b, _ := ioutil.ReadFile(filepath.Join(d, i.Name())); r = append(r, string(b)) }
  return
}
'''
SEEDS=[
dict(id='B36',prop='C20',pkg=P,hide=1,
 edits=[(F,'''	l.file = file
	l.size = info.Size()
''','''	l.file = file
	if l.size == 0 {
		l.size = info.Size()
	}
''')],
 demo=HEAD+'''
func TestDemo(t *testing.T) {
  d := tdir(t); defer os.RemoveAll(d)
  megabyte = 1
  l := &Logger{Filename: filepath.Join(d, "x.log"), MaxSize: 20}
  defer l.Close()
  l.Write([]byte("12345"))
  l.Close()
  f, _ := os.OpenFile(l.Filename, os.O_APPEND|os.O_WRONLY, 0600)
  f.Write([]byte("abcdefghij")); f.Close()
  l.Write([]byte("678"))
  l.Write([]byte("90123"))
  for _, s := range files(d) { if len(s) > 20 { t.Fatalf("file of %d bytes: %q", len(s), s) } }
}''',
 needs='a file that grew by another writer between Close and the next Write', breaks='the file grows beyond MaxSize'),
dict(id='B37',prop='C20',pkg=P,hide=1,
 edits=[(F,'''	if l.size+writeLen > l.max() {
		if err := l.rotate(); err != nil {
			return 0, err
		}
	}

	n, err = l.file.Write(p)
''','''	if l.size+writeLen > l.max() {
		if room := l.max() - l.size; room > l.max()/2 {
			// use the room that is left
			if n, err = l.file.Write(p[:room]); err != nil {
				return n, err
			}
			p = p[room:]
		}
		if err := l.rotate(); err != nil {
			return n, err
		}
		m, err := l.file.Write(p)
		l.size += int64(m)
		return n + m, err
	}

	n, err = l.file.Write(p)
''')],
 demo=HEAD+'''
func TestDemo(t *testing.T) {
  d := tdir(t); defer os.RemoveAll(d)
  megabyte = 1
  l := &Logger{Filename: filepath.Join(d, "x.log"), MaxSize: 20}
  defer l.Close()
  l.Write([]byte("12345"))
  l.Write([]byte(strings.Repeat("a", 18)))
  for _, s := range files(d) { if s == strings.Repeat("a", 18) { return } }
  t.Fatalf("split: %q", files(d))
}''',
 needs='a message of more than half the limit that does not fit', breaks='the message is split over two files'),
dict(id='B38',prop='C20',pkg=P,hide=1,
 edits=[(F,'''	return b[i].timestamp.After(b[j].timestamp)''','''	return b[i].timestamp.Unix() > b[j].timestamp.Unix()''')],
 demo=HEAD+'''
func TestDemo(t *testing.T) {
  d := tdir(t); defer os.RemoveAll(d)
  l := &Logger{Filename: filepath.Join(d, "x.log"), MaxBackups: 1}
  for i := 1; i <= 60; i++ { ioutil.WriteFile(filepath.Join(d, fmt.Sprintf("x-2020-01-01T00-00-00.%03d.log", i)), []byte(fmt.Sprint(i)), 0600) }
  if err := l.millRunOnce(); err != nil { t.Fatal(err) }
  if f := files(d); len(f) != 1 || f[0] != "60" { t.Fatalf("left: %q", f) }
}''',
 needs='several backups within one second', breaks='newer backups are removed and older ones kept'),
dict(id='B39',prop='C20',pkg=P,hide=1,
 edits=[(F,'''	file, err := os.OpenFile(filename, os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
''','''	file, err := os.OpenFile(filename, os.O_WRONLY, 0644)
	if err == nil {
		_, err = file.Seek(0, 2)
	}
	if err != nil {
''')],
 demo=HEAD+'''
func TestDemo(t *testing.T) {
  d := tdir(t); defer os.RemoveAll(d)
  l := &Logger{Filename: filepath.Join(d, "x.log")}
  defer l.Close()
  ioutil.WriteFile(l.Filename, []byte("old"), 0600)
  l.Write([]byte("1"))
  f, _ := os.OpenFile(l.Filename, os.O_APPEND|os.O_WRONLY, 0600)
  f.Write([]byte("other")); f.Close()
  l.Write([]byte("2"))
  if f := files(d); len(f) != 1 || f[0] != "old1other2" { t.Fatalf("%q", f) }
}''',
 needs='another process that appends to the same file', breaks='its text is overwritten'),
]
