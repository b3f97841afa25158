package lumberjack

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

// all log text in dir, oldest backup first, then the current file
func c20read(dir, name string) (files []string, err error) {
	infos, err := ioutil.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var names []string
	for _, i := range infos {
		if i.Name() != name {
			names = append(names, i.Name())
		}
	}
	sort.Strings(names)
	if _, e := os.Stat(filepath.Join(dir, name)); e == nil {
		names = append(names, name)
	}
	for _, n := range names {
		b, err := ioutil.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return nil, err
		}
		if strings.HasSuffix(n, ".gz") {
			z, err := gzip.NewReader(bytes.NewReader(b))
			if err != nil {
				return nil, fmt.Errorf("%s: %v", n, err)
			}
			if b, err = ioutil.ReadAll(z); err != nil {
				return nil, fmt.Errorf("%s: %v", n, err)
			}
		}
		files = append(files, string(b))
	}
	return files, nil
}

func TestVerifC20(t *testing.T) {
	defer vdone(t)
	megabyte = 1
	var mu sync.Mutex
	now := time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
	currentTime = func() time.Time {
		mu.Lock()
		defer mu.Unlock()
		now = now.Add(137 * time.Millisecond)
		return now
	}
	r := vrand()
	n := vscale(60, 1500)
	for i := 0; i < n; i++ {
		dir, err := ioutil.TempDir("", "c20")
		if err != nil {
			t.Fatal(err)
		}
		bad := c20run(r, dir, i)
		os.RemoveAll(dir)
		if bad != "" {
			vcex("rotate", "%s", bad)
			return
		}
	}
}

func c20run(r interface {
	Intn(int) int
}, dir string, i int) string {
	name := "x.log"
	max := 10 + r.Intn(60)
	l := &Logger{Filename: filepath.Join(dir, name), MaxSize: max}
	defer func() { l.Close() }()
	steps := fmt.Sprintf("max %d:", max)
	var want string
	if r.Intn(3) == 0 {
		want = strings.Repeat("o", 1+r.Intn(2*max))
		ioutil.WriteFile(l.Filename, []byte(want), 0600)
		steps += fmt.Sprintf(" existing %d;", len(want))
	}
	existing := len(want)
	var msgs []string
	for k := 0; k < 3+r.Intn(30); k++ {
		switch r.Intn(12) {
		case 0:
			steps += " rotate;"
			if err := l.Rotate(); err != nil {
				return steps + err.Error()
			}
		case 1:
			steps += " close;"
			if err := l.Close(); err != nil {
				return steps + err.Error()
			}
		case 2:
			steps += " too big;"
			before, _ := c20read(dir, name)
			c, err := l.Write(make([]byte, max+1+r.Intn(5)))
			after, _ := c20read(dir, name)
			if err == nil || c != 0 || strings.Join(before, "|") != strings.Join(after, "|") {
				return fmt.Sprintf("%s: %d %v, files %q then %q", steps, c, err, before, after)
			}
		default:
			size := r.Intn(max + 1)
			if r.Intn(4) == 0 {
				size = max
			}
			msg := ""
			if size > 0 {
				msg = fmt.Sprintf("%c%s", 'A'+k%26, strings.Repeat(string(rune('a'+k%26)), size-1))
			}
			steps += fmt.Sprintf(" write %d;", size)
			c, err := l.Write([]byte(msg))
			if err != nil || c != size {
				return fmt.Sprintf("%s: %d %v", steps, c, err)
			}
			msgs = append(msgs, msg)
			want += msg
		}
		files, err := c20read(dir, name)
		if err != nil {
			return steps + err.Error()
		}
		if got := strings.Join(files, ""); got != want {
			return fmt.Sprintf("%s: files hold %q, want %q", steps, files, want)
		}
		for f, text := range files {
			if len(text) > max && !(f == 0 && existing > 0 && len(text) == existing) {
				return fmt.Sprintf("%s: file of %d bytes: %q", steps, len(text), text)
			}
			// no message is split: a file starts with the start of a message
			if text != "" && text[0] >= 'a' && text[0] <= 'z' && text[0] != 'o' {
				return fmt.Sprintf("%s: a message is split: %q", steps, files)
			}
		}
	}
	vcount(fmt.Sprintf("%d-%d", max, len(msgs)))
	return c20old(r, dir, name, steps)
}

// cleaning up keeps the newest backups, and never the current file or other files
func c20old(r interface {
	Intn(int) int
}, dir, name, steps string) string {
	current, other := filepath.Join(dir, name), filepath.Join(dir, "other.log")
	ioutil.WriteFile(current, []byte("current"), 0600)
	ioutil.WriteFile(other, []byte("other"), 0600)
	infos, _ := ioutil.ReadDir(dir)
	var backups []string
	texts := map[string]string{}
	for _, i := range infos {
		if i.Name() != name && i.Name() != "other.log" {
			backups = append(backups, i.Name())
			b, _ := ioutil.ReadFile(filepath.Join(dir, i.Name()))
			texts[i.Name()] = string(b)
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(backups)))
	keep := r.Intn(5)
	l := &Logger{Filename: current, MaxBackups: keep, Compress: r.Intn(2) == 0}
	for k := 0; k < 2; k++ {
		if err := l.millRunOnce(); err != nil {
			return steps + " clean up: " + err.Error()
		}
	}
	for f, want := range map[string]string{current: "current", other: "other"} {
		if b, err := ioutil.ReadFile(f); err != nil || string(b) != want {
			return fmt.Sprintf("%s clean up: %s is %q, %v", steps, f, b, err)
		}
	}
	for k, b := range backups {
		f := filepath.Join(dir, b)
		if l.Compress {
			f += ".gz"
		}
		data, err := ioutil.ReadFile(f)
		if keep > 0 && k >= keep {
			if err == nil {
				return fmt.Sprintf("%s clean up, keeping %d: %s is left of %v", steps, keep, b, backups)
			}
			continue
		}
		if err == nil && l.Compress {
			z, e := gzip.NewReader(bytes.NewReader(data))
			if err = e; err == nil {
				data, err = ioutil.ReadAll(z)
			}
		}
		if err != nil || string(data) != texts[b] {
			return fmt.Sprintf("%s clean up, keeping %d (compress %v): %s holds %q (%v), want %q", steps, keep, l.Compress, b, data, err, texts[b])
		}
	}
	return ""
}
