package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded code: harness + /repo + dependencies, in SSA form.
type Program struct {
	prog  *ssa.Program
	fset  *token.FileSet
	pkgs  []*ssa.Package
	rtErr types.Type
	mod   string
	root  string
	allow map[*ssa.Package]bool
}

func loadProgram(dir, overlayDir string, patterns []string, replaceDir string) (*Program, error) {
	ov := map[string][]byte{}
	err := harnessOverlay(dir, overlayDir, func(dst, src string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		ov[dst] = b
		return nil
	})
	if err != nil {
		return nil, err
	}
	env := append(goEnv(dir), "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: ov, Env: env, BuildFlags: []string{"-tags=verif"}}
	// dependency source replacements
	if replaceDir != "" {
		if err := depOverlay(replaceDir, env, dir, ov); err != nil {
			return nil, err
		}
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fset: prog.Fset, pkgs: pkgs, root: dir, allow: map[*ssa.Package]bool{}}
	rt := prog.ImportedPackage("runtime")
	if rt == nil {
		return nil, fmt.Errorf("no runtime package")
	}
	p.rtErr = rt.Type("errorString").Type()
	for _, pk := range prog.AllPackages() {
		p.allow[pk] = initAllowedPath(pk.Pkg.Path())
	}
	return p, nil
}

// harnessOverlay lists the virtual files that put the harness inside the module.
func harnessOverlay(dir, overlayDir string, f func(dst, src string) error) error {
	return filepath.Walk(overlayDir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(overlayDir, path)
		return f(filepath.Join(dir, "zzverif", rel), path)
	})
}

// depOverlay replaces files of dependencies: replaceDir/<import path>/<file>.go
func depOverlay(replaceDir string, env []string, dir string, ov map[string][]byte) error {
	byPkg := map[string][]string{}
	filepath.Walk(replaceDir, func(path string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(replaceDir, filepath.Dir(path))
			byPkg[rel] = append(byPkg[rel], path)
		}
		return nil
	})
	if len(byPkg) == 0 {
		return nil
	}
	var pats []string
	for k := range byPkg {
		pats = append(pats, k)
	}
	ps, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedFiles, Dir: dir, Env: env}, pats...)
	if err != nil {
		return err
	}
	for _, p := range ps {
		if len(p.GoFiles) == 0 {
			return fmt.Errorf("dependency overlay: no files for %s", p.PkgPath)
		}
		d := filepath.Dir(p.GoFiles[0])
		for _, f := range byPkg[p.PkgPath] {
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			ov[filepath.Join(d, filepath.Base(f))] = b
		}
	}
	return nil
}

var stdInit = map[string]bool{"io": true, "context": true, "bytes": true, "strings": true, "bufio": true, "sort": true, "strconv": true,
	"encoding/binary": true, "math/bits": true, "internal/oserror": true, "io/ioutil": true, "path": true, "hash": true, "container/list": true,
	"unicode/utf8": true, "encoding/hex": true, "container/heap": true, "slices": true, "cmp": true, "maps": true, "iter": true, "crypto": false}

// initialised when one of their variables is first used on a path
var lazyInit = map[string]bool{"unicode": true, "math/rand": true, "regexp": true, "regexp/syntax": true, "hash/crc32": true, "hash/crc64": true,
	"math/big": true, "encoding/base64": true, "encoding/base32": true, "html": true, "text/tabwriter": true, "math/cmplx": true, "hash/adler32": true, "hash/maphash": true}

func initAllowedPath(p string) bool {
	if strings.HasPrefix(p, "github.com/ipfs/go-unixfs") {
		return true
	}
	for _, d := range []string{"github.com/ipfs/go-cid", "github.com/ipfs/go-ipld-format", "github.com/ipfs/go-block-format", "github.com/ipfs/go-bitfield",
		"github.com/ipfs/go-merkledag", "github.com/multiformats/go-varint", "github.com/spaolacci/murmur3", "golang.org/x/sync", "github.com/ipfs/go-ipfs-posinfo", "github.com/ipfs/go-ipfs-chunker", "github.com/ipfs/go-ipfs-files", "github.com/alecthomas/units"} {
		if p == d || strings.HasPrefix(p, d+"/") {
			return true
		}
	}
	return stdInit[p]
}

func (p *Program) initAllowed(pk *ssa.Package) bool {
	if pk == nil {
		return true
	}
	return p.allow[pk]
}

func (p *Program) findEntry(pkgPath, name string) *ssa.Function {
	pk := p.prog.ImportedPackage(pkgPath)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

func (p *Program) shortFile(pos token.Pos) string {
	ps := p.fset.Position(pos)
	f := ps.Filename
	if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	}
	f = strings.TrimPrefix(f, p.root+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// pos describes the current instruction of a frame.
func (p *Program) pos(fr *frame) string {
	if fr == nil {
		return "?"
	}
	var ps token.Pos
	if fr.block < len(fr.cf.srcs) && fr.cf.srcs[fr.block] != nil && fr.ii < len(fr.cf.srcs[fr.block]) {
		ss := fr.cf.srcs[fr.block]
		for i := fr.ii; i >= 0 && ps == token.NoPos; i-- {
			ps = ss[i].Pos()
		}
	}
	if ps == token.NoPos {
		ps = fr.cf.fn.Pos()
	}
	n := fr.cf.fn.String()
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return n + "(" + p.shortFile(ps) + ")"
}

func (p *Program) posG(g *G) string {
	var parts []string
	for f, n := g.fr, 0; f != nil && n < 4; f, n = f.caller, n+1 {
		parts = append(parts, p.pos(f))
	}
	return strings.Join(parts, " < ")
}
