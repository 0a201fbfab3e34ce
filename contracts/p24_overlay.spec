package "github.com/grafana/thema/internal/util"
import fs "io/fs"
import io "io"
import filepath "path/filepath"
import load "cuelang.org/go/cue/load"
import m "github.com/grafana/thema/internal/zzgovermodels"

extern pure (io/fs.FS).Open(f, name) (r, err)
extern pure (io/fs.DirEntry).IsDir(d) (r)
extern (io/fs.File).Close(f) (err)
extern pure io.ReadAll(r) (b, err)
extern pure cuelang.org/go/cue/load.FromBytes(b) (r)
extern pure path/filepath.Join(a) (r)
extern pure path/filepath.IsAbs(a) (r)
extern pure github.com/grafana/thema/internal/zzgovermodels.walkN(f, root) (n)
extern pure github.com/grafana/thema/internal/zzgovermodels.walkPath(f, root, i) (p)
extern pure github.com/grafana/thema/internal/zzgovermodels.walkEntry(f, root, i) (p)
extern pure github.com/grafana/thema/internal/zzgovermodels.walkErr(f, root, i) (p)
extern pure github.com/grafana/thema/internal/zzgovermodels.walkSkip(f, root, i) (p)

fn nwalk(f fs.FS) int {
  m.walkN(f, ".")
}
fn wkey(prefix string, f fs.FS, i int) string {
  filepath.Join(prefix, m.walkPath(f, ".", i))
}
fn isfile(f fs.FS, i int) bool {
  !m.walkEntry(f, ".", i).IsDir()
}
fn wfile(f fs.FS, i int) fs.File {
  res(0, f.Open(m.walkPath(f, ".", i)))
}
fn openErr(f fs.FS, i int) error {
  res(1, f.Open(m.walkPath(f, ".", i)))
}
fn readErr(f fs.FS, i int) error {
  res(1, io.ReadAll(wfile(f, i)))
}
fn wsource(f fs.FS, i int) load.Source {
  load.FromBytes(res(0, io.ReadAll(wfile(f, i))))
}
fn visited(f fs.FS, i int) bool {
  m.walkErr(f, ".", i) == nil && implies(isfile(f, i), openErr(f, i) == nil && readErr(f, i) == nil)
}
fn failing(f fs.FS, i int, err error) bool {
  ite(m.walkErr(f, ".", i) != nil, err == m.walkErr(f, ".", i), isfile(f, i) && ite(openErr(f, i) != nil, err == openErr(f, i), err == readErr(f, i) && err != nil))
}
fn skipping(e error) bool {
  e != nil && (e == fs.SkipAll || e == fs.SkipDir)
}
// what a walk of a file system visits: entries under different paths, whose errors are not the walk's own signals
pred WalkOK(prefix string, vfs fs.FS) {
  vfs != nil && nwalk(vfs) >= 0
  && forall(i, 0, nwalk(vfs), m.walkErr(vfs, ".", i) != nil || m.walkEntry(vfs, ".", i) != nil)
  && forall(i, 0, nwalk(vfs), !skipping(m.walkErr(vfs, ".", i)) && !skipping(openErr(vfs, i)) && !skipping(readErr(vfs, i)) && implies(openErr(vfs, i) == nil, wfile(vfs, i) != nil))
  && forall(i, 0, nwalk(vfs), forall(j, i+1, nwalk(vfs), wkey(prefix, vfs, i) != wkey(prefix, vfs, j)))
}
func ToOverlay(prefix, vfs, overlay) (err) {
  safe [P24]
  requires WalkOK(prefix, vfs) && overlay != nil
  modifies map(overlay)
  loopinv (k int) 0 <= k && k <= nwalk(vfs)
  loopinv (k int) forall(i, 0, k, visited(vfs, i))
  loopinv (k int) forall(i, 0, k, implies(isfile(vfs, i), has(overlay, wkey(prefix, vfs, i)) && overlay[wkey(prefix, vfs, i)] == wsource(vfs, i)))
  loopinv (k int) forall(s, string, implies(has(overlay, s) != old(has(overlay, s)) || overlay[s] != old(overlay[s]), exists(i, 0, k, isfile(vfs, i) && s == wkey(prefix, vfs, i))))
  ensures [P24] relative: implies(!filepath.IsAbs(prefix), err != nil && forall(s, string, has(overlay, s) == old(has(overlay, s)) && overlay[s] == old(overlay[s])))
  ensures [P24] files: implies(err == nil, forall(i, 0, nwalk(vfs), implies(isfile(vfs, i), has(overlay, wkey(prefix, vfs, i)) && overlay[wkey(prefix, vfs, i)] == wsource(vfs, i))))
  ensures [P24] nothingelse: forall(s, string, implies(has(overlay, s) != old(has(overlay, s)) || overlay[s] != old(overlay[s]), exists(i, 0, nwalk(vfs), isfile(vfs, i) && s == wkey(prefix, vfs, i))))
  ensures [P24] complete: implies(err == nil, forall(i, 0, nwalk(vfs), visited(vfs, i)))
  ensures [P24] firsterror: implies(err != nil && filepath.IsAbs(prefix), exists(i, 0, nwalk(vfs), failing(vfs, i, err) && forall(j, 0, i, visited(vfs, j))))
}

package "github.com/grafana/thema/load"
import fs "io/fs"
import filepath "path/filepath"
func ToOverlay(prefix, vfs, overlay) (err) {
  safe [P24]
  requires WalkOK(prefix, vfs) && overlay != nil
  modifies map(overlay)
  ensures [P24] relative: implies(!filepath.IsAbs(prefix), err != nil && forall(s, string, has(overlay, s) == old(has(overlay, s)) && overlay[s] == old(overlay[s])))
  ensures [P24] files: implies(err == nil, forall(i, 0, nwalk(vfs), implies(isfile(vfs, i), has(overlay, wkey(prefix, vfs, i)) && overlay[wkey(prefix, vfs, i)] == wsource(vfs, i))))
  ensures [P24] nothingelse: forall(s, string, implies(has(overlay, s) != old(has(overlay, s)) || overlay[s] != old(overlay[s]), exists(i, 0, nwalk(vfs), isfile(vfs, i) && s == wkey(prefix, vfs, i))))
  ensures [P24] complete: implies(err == nil, forall(i, 0, nwalk(vfs), visited(vfs, i)))
  ensures [P24] firsterror: implies(err != nil && filepath.IsAbs(prefix), exists(i, 0, nwalk(vfs), failing(vfs, i, err) && forall(j, 0, i, visited(vfs, j))))
}
