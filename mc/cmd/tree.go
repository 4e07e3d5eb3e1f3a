package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/mc/instr"
)

const modPath = "github.com/yields/ant"

// Instrumented copies of these modules' packages are used.
var depMods = []struct{ mod, dir string }{
	{"golang.org/x/sync", "xsync"},
	{"golang.org/x/time", "xtime"},
	{"github.com/segmentio/agecache", "agecache"},
}

type builder struct {
	verif, repo, build string
	levels             map[string]int // degraded instrumentation per tree file
	base               int
	notes              []string
}

func (b *builder) tree() string { return filepath.Join(b.build, "tree") }

func (b *builder) env(extra ...string) []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED="+b.cgo())
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return append(env, extra...)
}

func (b *builder) cgo() string { return "1" }

// files of the tree: path -> content
func (b *builder) generate() (map[string][]byte, error) {
	out := map[string][]byte{}

	for _, f := range []string{"go.mod", "go.sum"} {
		c, err := os.ReadFile(filepath.Join(b.repo, f))
		if err != nil {
			return nil, err
		}
		out[f] = c
	}

	// Imports common to all instrumented code.
	common := map[string]string{
		"sync":        modPath + "/zverif/vsync",
		"sync/atomic": modPath + "/zverif/vatomic",
	}
	deps, err := b.deps()
	if err != nil {
		return nil, err
	}
	for _, d := range deps {
		for _, p := range d.pkgs {
			common[d.mod+p] = modPath + "/zverif/dep/" + d.dir + p
		}
	}
	with := func(m map[string]string, kv ...string) map[string]string {
		r := map[string]string{}
		for k, v := range m {
			r[k] = v
		}
		for i := 0; i < len(kv); i += 2 {
			r[kv[i]] = kv[i+1]
		}
		return r
	}

	add := func(dst, src string, imports map[string]string) error {
		c, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		o, err := b.rewrite(dst, src, c, imports)
		if err != nil {
			return err
		}
		out[dst] = o
		return nil
	}

	// The repository.
	err = filepath.Walk(b.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(b.repo, p)
		if fi.IsDir() {
			n := fi.Name()
			if rel != "." && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || rel == "zverif") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") {
			if strings.HasSuffix(p, ".s") || strings.HasSuffix(p, ".txt") || strings.HasSuffix(p, ".html") || strings.HasSuffix(p, ".json") {
				// Possibly embedded.
				c, err := os.ReadFile(p)
				if err != nil {
					return err
				}
				out[rel] = c
			}
			return nil
		}
		if strings.HasSuffix(p, "_test.go") {
			return nil
		}
		im := common
		switch filepath.Dir(rel) {
		case "antcache":
			im = with(common, "os", modPath+"/zverif/vos", "io/ioutil", modPath+"/zverif/vos/vioutil", "path/filepath", modPath+"/zverif/vos/vfilepath")
		}
		return add(rel, p, im)
	})
	if err != nil {
		return nil, err
	}

	// Dependencies.
	for _, d := range deps {
		for _, p := range d.pkgs {
			fs, _ := filepath.Glob(filepath.Join(d.src, p, "*.go"))
			for _, f := range fs {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				if err := add(filepath.Join("zverif/dep", d.dir, p, filepath.Base(f)), f, common); err != nil {
					return nil, err
				}
			}
		}
	}

	// The browser protocol.
	if err := b.cdp(out, common); err != nil {
		return nil, err
	}

	// Runtime and harnesses.
	for _, m := range []struct{ src, dst string }{{"rt", "zverif"}, {"h", "zverif/h"}} {
		root := filepath.Join(b.verif, m.src)
		err = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return err
			}
			rel, _ := filepath.Rel(root, p)
			c, err := os.ReadFile(p)
			out[filepath.Join(m.dst, rel)] = c
			return err
		})
		if err != nil {
			return nil, err
		}
	}
	return out, nil
}

const cdpMod = "github.com/mafredri/cdp"

// cdp adds a copy of the browser protocol's module that replaces it: its
// connections are instrumented and go to the harness instead of the network.
func (b *builder) cdp(out map[string][]byte, imports map[string]string) error {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", cdpMod)
	cmd.Dir = b.repo
	cmd.Env = b.env("GOFLAGS=-mod=readonly")
	o, err := cmd.Output()
	dir := strings.TrimSpace(string(o))
	if err != nil || dir == "" {
		b.notes = append(b.notes, "module "+cdpMod+" not found")
		return nil
	}
	patches := map[string][2]string{
		"rpcc/conn.go":       {"netDial := c.dialOpts.dialer\n", "netDial := c.dialOpts.dialer\n\tif netDial == nil {\n\t\tnetDial = VerifDial\n\t}\n"},
		"devtool/devtool.go": {"devtools.client = &http.Client{}", "devtools.client = &http.Client{Transport: VerifTransport}"},
	}
	hooks := map[string]string{
		"rpcc/zverif.go":    "package rpcc\n\nimport (\n\t\"context\"\n\t\"io\"\n)\n\n// VerifDial replaces the network.\nvar VerifDial func(ctx context.Context, addr string) (io.ReadWriteCloser, error)\n",
		"devtool/zverif.go": "package devtool\n\nimport \"net/http\"\n\n// VerifTransport replaces the network.\nvar VerifTransport http.RoundTripper\n",
	}
	err = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			switch n := fi.Name(); {
			case rel == ".":
			case n == "cmd", n == "example", n == "testdata", strings.HasPrefix(n, "."):
				return filepath.SkipDir
			}
			return nil
		}
		if rel != "go.mod" && (!strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go")) {
			return nil
		}
		c, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dst := filepath.Join("zcdp", rel)
		if rel == "go.mod" {
			// The scheduler is generic.
			c = regexp.MustCompile(`(?m)^go 1\.(\d|1[0-7])\s*$`).ReplaceAll(c, []byte("go 1.18"))
		}
		if pt, ok := patches[rel]; ok {
			if !bytes.Contains(c, []byte(pt[0])) {
				return fmt.Errorf("%s: cannot connect the harness", p)
			}
			c = bytes.Replace(c, []byte(pt[0]), []byte(pt[1]), 1)
			delete(patches, rel)
		}
		if d := filepath.Dir(rel); d == "rpcc" || d == "devtool" {
			if c, err = b.rewrite(dst, p, c, imports); err != nil {
				return err
			}
		}
		out[dst] = c
		return nil
	})
	if err != nil {
		return err
	}
	if len(patches) > 0 {
		return fmt.Errorf("%s: cannot connect the harness", dir)
	}
	for rel, c := range hooks {
		out[filepath.Join("zcdp", rel)] = []byte(c)
	}
	out["go.mod"] = append(append([]byte{}, out["go.mod"]...), []byte("\nreplace "+cdpMod+" => ./zcdp\n")...)
	return nil
}

type dep struct {
	mod, dir, src string
	pkgs          []string // "" or "/name"
}

// deps finds the module sources in the module cache.
func (b *builder) deps() ([]dep, error) {
	var ret []dep
	for _, m := range depMods {
		cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", m.mod)
		cmd.Dir = b.repo
		cmd.Env = b.env("GOFLAGS=-mod=readonly")
		o, err := cmd.Output()
		dir := strings.TrimSpace(string(o))
		if err != nil || dir == "" {
			b.notes = append(b.notes, "module "+m.mod+" not found: its code is not instrumented")
			continue
		}
		d := dep{mod: m.mod, dir: m.dir, src: dir}
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil || !fi.IsDir() {
				return err
			}
			rel, _ := filepath.Rel(dir, p)
			if rel == "." {
				rel = ""
			} else {
				rel = "/" + rel
			}
			n := fi.Name()
			if rel != "" && (strings.HasPrefix(n, ".") || n == "testdata" || n == "internal") {
				return filepath.SkipDir
			}
			fs, _ := filepath.Glob(filepath.Join(p, "*.go"))
			for _, f := range fs {
				if !strings.HasSuffix(f, "_test.go") {
					d.pkgs = append(d.pkgs, rel)
					break
				}
			}
			return nil
		})
		ret = append(ret, d)
	}
	return ret, nil
}

func (b *builder) rewrite(dst, src string, c []byte, imports map[string]string) ([]byte, error) {
	lvl := b.base
	if l := b.levels[dst]; l > lvl {
		lvl = l
	}
	opt := instr.Options{Imports: imports, Stmts: true, Chans: true, Gos: true, VschedPath: modPath + "/zverif/vsched", DisplayName: dst}
	switch lvl {
	case 0:
	case 1:
		opt.InlineGo = true
	case 2:
		opt.InlineGo = true
		opt.Chans = false
	default:
		opt.Stmts, opt.Chans, opt.Gos = false, false, false
	}
	o, err := instr.File(dst, c, opt)
	if err != nil {
		b.notes = append(b.notes, err.Error())
		// Not parsable: let the compiler say so.
		return c, nil
	}
	if _, err := parser.ParseFile(token.NewFileSet(), dst, o, parser.SkipObjectResolution); err != nil {
		opt.Stmts, opt.Chans, opt.Gos = false, false, false
		b.notes = append(b.notes, "instr: "+err.Error())
		return instr.File(dst, c, opt)
	}
	return o, nil
}

func (b *builder) write(files map[string][]byte) error {
	root := b.tree()
	if err := os.MkdirAll(root, 0o755); err != nil {
		return err
	}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if _, ok := files[rel]; !ok {
			return os.Remove(p)
		}
		return nil
	})
	if err != nil {
		return err
	}
	for rel, c := range files {
		p := filepath.Join(root, rel)
		if old, err := os.ReadFile(p); err == nil && bytes.Equal(old, c) {
			continue
		}
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, c, 0o644); err != nil {
			return err
		}
	}
	return nil
}

var errLine = regexp.MustCompile(`(?m)^([^\s:]+\.go):\d+`)

// compile builds the harness package's test binary.
func (b *builder) compile(pkg string, race bool) (string, error) {
	bin := filepath.Join(b.build, "bin", pkg+".test")
	args := []string{"test", "-c", "-vet=off", "-o", bin}
	if race {
		bin = filepath.Join(b.build, "bin", pkg+".race.test")
		args = []string{"test", "-c", "-vet=off", "-race", "-o", bin}
	}
	os.MkdirAll(filepath.Dir(bin), 0o755)
	args = append(args, "./zverif/h/"+pkg)
	var last string
	for try := 0; try < 6; try++ {
		files, err := b.generate()
		if err != nil {
			return "", err
		}
		if err := b.write(files); err != nil {
			return "", err
		}
		cmd := exec.Command("go", args...)
		cmd.Dir = b.tree()
		cmd.Env = b.env()
		o, err := cmd.CombinedOutput()
		if err == nil {
			return bin, nil
		}
		last = string(o)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, last)
		}
		bumped := false
		for _, m := range errLine.FindAllStringSubmatch(last, -1) {
			f := filepath.Clean(m[1])
			if strings.HasPrefix(f, "zverif/") && !strings.HasPrefix(f, "zverif/dep/") {
				continue
			}
			if _, ok := files[f]; ok && b.levels[f] < 3 {
				b.levels[f]++
				b.notes = append(b.notes, fmt.Sprintf("instrumentation of %s reduced to level %d", f, b.levels[f]))
				bumped = true
				break
			}
		}
		if !bumped {
			break
		}
	}
	return "", errors.New("build failed:\n" + last)
}

// Known findings.
type finding struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"` // regexp
	Key      string `json:"key"`      // regexp
	What     string `json:"what"`
	Status   string `json:"status"` // "open" or "fixed"
}

func loadFindings(path string) ([]finding, error) {
	c, err := os.ReadFile(path)
	if errors.Is(err, os.ErrNotExist) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var f struct {
		Findings []finding `json:"findings"`
	}
	err = json.Unmarshal(c, &f)
	return f.Findings, err
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func atoi(s string, d int) int {
	if n, err := strconv.Atoi(s); err == nil {
		return n
	}
	return d
}
