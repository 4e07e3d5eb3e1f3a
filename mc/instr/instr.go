// Package instr instruments Go source for the controlled scheduler by text
// edits: line numbers are kept and no type information is needed.
package instr

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"path"
	"sort"
	"strconv"
	"strings"
)

// Options of a rewrite.
type Options struct {
	Imports     map[string]string // import path -> replacement
	Stmts       bool              // insert S before statements
	Chans       bool              // rewrite channel operations and select
	Gos         bool              // rewrite go statements
	InlineGo    bool              // do not evaluate the arguments of go statements early
	VschedPath  string
	DisplayName string
}

type edit struct {
	off, end int
	text     string
	seq      int
}

type rw struct {
	src   []byte
	fset  *token.FileSet
	file  *ast.File
	opt   Options
	edits []edit
	sites []string
	n     int
	v     string // name of the vsched import
	base  string
	used  bool
}

// File rewrites one file.
func File(name string, src []byte, opt Options) (out []byte, err error) {
	defer func() {
		if v := recover(); v != nil {
			err = fmt.Errorf("instr %s: %v", name, v)
		}
	}()
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	h := fnv.New32a()
	h.Write([]byte(opt.DisplayName))
	r := &rw{src: src, fset: fset, file: f, opt: opt, v: "zvs", base: fmt.Sprintf("zvB%08x", h.Sum32())}
	r.imports()
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.walk(d.Body)
			}
		case *ast.GenDecl:
			r.walk(d)
		}
	}
	if r.used {
		r.insert(f.Name.End(), fmt.Sprintf("; import %s %q", r.v, opt.VschedPath))
		var b strings.Builder
		fmt.Fprintf(&b, "\nvar %s = %s.Sites([]string{", r.base, r.v)
		for i, s := range r.sites {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(s))
		}
		b.WriteString("})\n")
		r.edits = append(r.edits, edit{off: len(src), end: len(src), text: b.String(), seq: len(r.edits)})
	}
	return r.apply(), nil
}

func (r *rw) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rw) insert(p token.Pos, s string) {
	o := r.off(p)
	r.edits = append(r.edits, edit{o, o, s, len(r.edits)})
}

func (r *rw) replace(a, b token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(a), r.off(b), s, len(r.edits)})
}

func (r *rw) text(a, b token.Pos) string { return string(r.src[r.off(a):r.off(b)]) }

func (r *rw) apply() []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].off != r.edits[j].off {
			return r.edits[i].off < r.edits[j].off
		}
		return r.edits[i].seq < r.edits[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range r.edits {
		if e.off < pos {
			panic(fmt.Sprintf("overlapping edits at %d", e.off))
		}
		b.Write(r.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(r.src[pos:])
	return b.Bytes()
}

func (r *rw) imports() {
	for _, im := range r.file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to, ok := r.opt.Imports[p]
		if !ok {
			continue
		}
		name := ""
		if im.Name == nil {
			name = path.Base(p) + " "
		}
		r.replace(im.Path.Pos(), im.Path.End(), name+strconv.Quote(to))
	}
}

func (r *rw) site(p token.Pos) string {
	pos := r.fset.Position(p)
	r.sites = append(r.sites, fmt.Sprintf("%s:%d", r.opt.DisplayName, pos.Line))
	r.used = true
	return fmt.Sprintf("%s.S(%s+%d);", r.v, r.base, len(r.sites)-1)
}

func (r *rw) tmp() string { r.n++; return fmt.Sprintf("zv%d", r.n) }

// list instruments a statement list.
func (r *rw) list(l []ast.Stmt) {
	for _, s := range l {
		if r.opt.Stmts {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			default:
				r.insert(s.Pos(), r.site(s.Pos()))
			}
		}
		r.walk(s)
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rw) recv2(rhs []ast.Expr, nlhs int) bool {
	if !r.opt.Chans || nlhs != 2 || len(rhs) != 1 {
		return false
	}
	u, ok := isRecv(rhs[0])
	if !ok {
		return false
	}
	r.used = true
	r.replace(rhs[0].Pos(), u.X.Pos(), r.v+".Recv2(")
	r.walk(u.X)
	r.replace(u.X.End(), rhs[0].End(), ")")
	return true
}

func (r *rw) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			r.list(n.List)
			return false
		case *ast.CaseClause:
			for _, e := range n.List {
				r.walk(e)
			}
			r.list(n.Body)
			return false
		case *ast.ForStmt:
			r.loop(n.Body)
			return true
		case *ast.RangeStmt:
			r.loop(n.Body)
			return true
		case *ast.LabeledStmt:
			if s, ok := n.Stmt.(*ast.SelectStmt); ok && r.opt.Chans {
				r.selectStmt(s, n)
				return false
			}
			return true
		case *ast.SelectStmt:
			if !r.opt.Chans {
				for _, c := range n.Body.List {
					r.list(c.(*ast.CommClause).Body)
				}
				return false
			}
			r.selectStmt(n, nil)
			return false
		case *ast.AssignStmt:
			if r.recv2(n.Rhs, len(n.Lhs)) {
				for _, e := range n.Lhs {
					r.walk(e)
				}
				return false
			}
			return true
		case *ast.ValueSpec:
			if r.recv2(n.Values, len(n.Names)) {
				return false
			}
			return true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && r.opt.Chans {
				r.used = true
				r.replace(n.Pos(), n.X.Pos(), r.v+".Recv(")
				r.walk(n.X)
				r.insert(n.X.End(), ")")
				return false
			}
			return true
		case *ast.SendStmt:
			if !r.opt.Chans {
				return true
			}
			r.used = true
			r.insert(n.Chan.Pos(), r.v+".Send(")
			r.walk(n.Chan)
			r.replace(n.Chan.End(), n.Value.Pos(), ")(")
			r.walk(n.Value)
			r.insert(n.Value.End(), ")")
			return false
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 && r.opt.Chans {
				r.used = true
				r.replace(id.Pos(), id.End(), r.v+".Close")
			}
			return true
		case *ast.GoStmt:
			if !r.opt.Gos {
				return true
			}
			r.goStmt(n)
			return false
		}
		return true
	})
}

// loop makes sure that every iteration passes a statement.
func (r *rw) loop(b *ast.BlockStmt) {
	if len(b.List) == 0 && r.opt.Stmts {
		r.insert(b.Lbrace+1, r.site(b.Lbrace))
	}
}

var builtins = map[string]bool{"close": true, "panic": true, "print": true, "println": true, "delete": true, "copy": true, "append": true, "recover": true, "clear": true}

func simple(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return e.Name == "nil" || e.Name == "true" || e.Name == "false"
	case *ast.FuncLit:
		return false
	case *ast.UnaryExpr:
		return e.Op != token.ARROW && e.Op != token.AND && simple(e.X)
	}
	return false
}

func (r *rw) goStmt(g *ast.GoStmt) {
	r.used = true
	c := g.Call
	fun := unparen(c.Fun)
	lit, isLit := fun.(*ast.FuncLit)
	if isLit && len(c.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		// go func() {...}()
		r.replace(g.Pos(), c.Fun.Pos(), r.v+".Go(")
		r.walk(c.Fun)
		r.replace(c.Fun.End(), c.End(), ")")
		return
	}
	id, isIdent := fun.(*ast.Ident)
	if r.opt.InlineGo || (isIdent && builtins[id.Name]) {
		r.replace(g.Pos(), c.Fun.Pos(), r.v+".Go(func() { ")
		r.walk(c)
		r.insert(c.End(), " })")
		return
	}
	// { f, a := fun, arg; Go(func() { f(a) }) }, in place: the arguments stay
	// where they are.
	var tmps []string
	call := ""
	var moved []ast.Expr
	if isLit {
		t := r.tmp()
		tmps = append(tmps, t)
		moved = append(moved, c.Fun)
		call = t
	} else {
		t := r.tmp()
		tmps = append(tmps, t)
		moved = append(moved, c.Fun)
		call = t
	}
	args := []string{}
	for _, a := range c.Args {
		if simple(a) {
			args = append(args, r.text(a.Pos(), a.End()))
			continue
		}
		t := r.tmp()
		tmps = append(tmps, t)
		moved = append(moved, a)
		args = append(args, t)
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	pos := g.Pos()
	for i, e := range moved {
		pre := "; "
		if i == 0 {
			pre = "{ "
		}
		r.replace(pos, e.Pos(), pre+tmps[i]+" := ")
		r.walk(e)
		pos = e.End()
	}
	r.replace(pos, c.End(), fmt.Sprintf("; %s.Go(func() { %s(%s%s) }) }", r.v, call, strings.Join(args, ", "), dots))
}

func (r *rw) selectStmt(s *ast.SelectStmt, label *ast.LabeledStmt) {
	r.used = true
	if len(s.Body.List) == 0 {
		start := s.Pos()
		r.replace(start, s.End(), "for { "+r.v+".Block() }")
		return
	}
	var pre strings.Builder
	pre.WriteString("{ ")
	def := false
	var names []string
	type cc struct {
		c    *ast.CommClause
		head string
	}
	var ccs []cc
	idx := 0
	for _, st := range s.Body.List {
		c := st.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			ccs = append(ccs, cc{c, "default:"})
			continue
		}
		t := r.tmp()
		names = append(names, t)
		head := fmt.Sprintf("case %d:", idx)
		idx++
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			fmt.Fprintf(&pre, "%s := %s.SendCase(%s)(%s); ", t, r.v, r.sub(m.Chan), r.sub(m.Value))
		case *ast.ExprStmt:
			u, _ := isRecv(m.X)
			fmt.Fprintf(&pre, "%s := %s.RecvCase(%s); ", t, r.v, r.sub(u.X))
		case *ast.AssignStmt:
			u, _ := isRecv(m.Rhs[0])
			fmt.Fprintf(&pre, "%s := %s.RecvCase(%s); ", t, r.v, r.sub(u.X))
			rhs := t + ".V"
			if len(m.Lhs) == 2 {
				rhs += ", " + t + ".OK"
			}
			lhs := make([]string, len(m.Lhs))
			for i, e := range m.Lhs {
				lhs[i] = r.text(e.Pos(), e.End())
			}
			head += fmt.Sprintf(" %s %s %s;", strings.Join(lhs, ", "), m.Tok, rhs)
		}
		ccs = append(ccs, cc{c, head})
	}
	lbl := ""
	start := s.Pos()
	if label != nil {
		lbl = label.Label.Name + ": "
		start = label.Pos()
	}
	call := fmt.Sprintf("%s%sswitch %s.Select(%v", pre.String(), lbl, r.v, def)
	for _, n := range names {
		call += ", " + n
	}
	call += ") {"
	r.replace(start, s.Body.Lbrace+1, call)
	for _, c := range ccs {
		r.replace(c.c.Pos(), c.c.Colon+1, c.head)
		r.list(c.c.Body)
	}
	end := "}"
	if !def {
		end = "default: panic(\"unreachable\") }"
	}
	r.replace(s.Body.Rbrace, s.Body.Rbrace+1, end+" }")
}

// sub returns the rewritten text of an expression that is moved.
func (r *rw) sub(e ast.Expr) string {
	saved := r.edits
	r.edits = nil
	r.walk(e)
	eds := r.edits
	r.edits = saved
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].off != eds[j].off {
			return eds[i].off < eds[j].off
		}
		return eds[i].seq < eds[j].seq
	})
	var b strings.Builder
	pos := r.off(e.Pos())
	for _, ed := range eds {
		b.Write(r.src[pos:ed.off])
		b.WriteString(ed.text)
		pos = ed.end
	}
	b.Write(r.src[pos:r.off(e.End())])
	return b.String()
}
