package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path/filepath"
	"reflect"
	"strings"
	"testing/fstest"

	"cuelang.org/go/cue/load"
	"github.com/grafana/thema/internal/util"
	"github.com/grafana/thema/internal/zzverif/hlib"
)

type Case = hlib.Case

func main() {
	hlib.Main([]*hlib.Prop{{ID: "P24", Quick: 4000, Run: p24, Rule: "random in-memory file systems (nested, empty files, empty directories), random prefixes and overlays, optionally one failing file"}})
}

var errOpen = errors.New("cannot open")
var errRead = errors.New("cannot read")

// faulty fails on one path.
type faulty struct {
	fs.FS
	path string
	read bool
	open map[string]int
}

func (f *faulty) Open(n string) (fs.File, error) {
	if n == f.path && !f.read {
		return nil, errOpen
	}
	x, err := f.FS.Open(n)
	if err == nil && n == f.path {
		return &badFile{x}, nil
	}
	if err == nil && f.open != nil {
		f.open[n]++
		return &counted{x, n, f.open}, nil
	}
	return x, err
}

type counted struct {
	fs.File
	n string
	o map[string]int
}

func (c *counted) Close() error { c.o[c.n]--; return c.File.Close() }
func (c *counted) ReadDir(n int) ([]fs.DirEntry, error) {
	if d, ok := c.File.(fs.ReadDirFile); ok {
		return d.ReadDir(n)
	}
	return nil, errors.New("not a directory")
}

type badFile struct{ fs.File }

func (b *badFile) Read(p []byte) (int, error) { return 0, errRead }
func (b *badFile) ReadDir(int) ([]fs.DirEntry, error) { return nil, errRead }

func content(s load.Source) string {
	v := reflect.ValueOf(s)
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	if v.Kind() == reflect.Slice {
		return string(v.Bytes())
	}
	return fmt.Sprintf("%#v", s)
}

func p24(c *Case) {
	m := fstest.MapFS{}
	files := map[string]string{}
	name := func() string {
		var p []string
		for n := 1 + c.Intn(4); n > 0; n-- {
			w := []string{"a", "b", "x.cue", "y.cue", "cue.mod", "module.cue", "z z", "noext", "data.json", ".hidden", "A",
				"x_test.cue", "X.CUE", "é.cue", "testdata", "vendor", "pkg", "node_modules", "README.md", "go.mod", "a~", "a.bak", "a.cue.cue", "#a#"}
			s := w[c.Intn(len(w))]
			if c.Intn(4) == 0 {
				s = string("._~@#-+ 0"[c.Intn(9)]) + s
			}
			if c.Intn(8) == 0 {
				s += []string{"~", ".tmp", ".swp", "_gen", ".orig", " ", "."}[c.Intn(7)]
			}
			p = append(p, s)
		}
		return strings.Join(p, "/")
	}
	for n := c.Intn(7); n > 0; n-- {
		f := name()
		ok := true
		for g := range m {
			if strings.HasPrefix(g, f+"/") || strings.HasPrefix(f, g+"/") || f == g {
				ok = false
			}
		}
		if !ok {
			continue
		}
		if c.Intn(6) == 0 {
			m[f] = &fstest.MapFile{Mode: fs.ModeDir | 0o755}
			continue
		}
		b := bytes.Repeat([]byte{byte('a' + c.Intn(26))}, []int{0, 1, 3, 600, 5000}[c.Intn(5)])
		m[f] = &fstest.MapFile{Data: b}
		files[f] = string(b)
	}
	prefix := []string{"/p", "/", "/a/b/c", "rel", "", "./x", "/q/../r", "/trailing/"}[c.Intn(8)]
	abs := strings.HasPrefix(prefix, "/")
	ov := map[string]load.Source{"/other/file": load.FromString("other")}
	if c.Intn(3) == 0 {
		ov["/p/a"] = load.FromString("old")
	}
	before := map[string]string{}
	for k, v := range ov {
		before[k] = content(v)
	}
	var vfs fs.FS = m
	ff := &faulty{FS: m, open: map[string]int{}}
	var want error
	if ks := hlib.SortedKeys(files); len(ks) > 0 && c.Intn(4) == 0 {
		ff.path = ks[c.Intn(len(ks))]
		ff.read = c.Intn(2) == 0
		want = errOpen
		if ff.read {
			want = errRead
		}
	}
	vfs = ff
	c.Logf("files %v, prefix %q, failing %q (%v)", hlib.SortedKeys(files), prefix, ff.path, want)
	c.Key("%v %q %q", hlib.SortedKeys(files), prefix, ff.path)
	err := util.ToOverlay(prefix, vfs, ov)
	c.Logf("ToOverlay: %v", err)
	got := map[string]string{}
	for k, v := range ov {
		got[k] = content(v)
	}
	if !abs {
		c.Check(err != nil, "relative prefix %q accepted", prefix)
		c.Check(reflect.DeepEqual(got, before), "entries were changed in spite of a relative prefix")
		return
	}
	for f, n := range ff.open {
		c.Check(n == 0, "file %s was not closed", f)
	}
	wantm := map[string]string{}
	for k, v := range before {
		wantm[k] = v
	}
	if want != nil {
		c.Check(errors.Is(err, want), "error %v, expected %v", err, want)
		// everything there is is old or right
		for k, v := range got {
			ok := before[k] == v
			for f, b := range files {
				ok = ok || filepath.Join(prefix, f) == k && b == v
			}
			c.Check(ok, "entry %q should not be there", k)
		}
		_, has := got[filepath.Join(prefix, ff.path)]
		_, had := before[filepath.Join(prefix, ff.path)]
		c.Check(!has || had, "an entry for the file that failed")
		return
	}
	c.Check(err == nil, "error: %v", err)
	for f, b := range files {
		wantm[filepath.Join(prefix, f)] = b
	}
	c.Check(reflect.DeepEqual(got, wantm), "overlay has %v, expected %v", hlib.SortedKeys(got), hlib.SortedKeys(wantm))
	_ = io.EOF
}
