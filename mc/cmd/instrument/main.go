// instrument writes copies of the packages under test in which every
// synchronization operation goes through birchmc/mcrt, and an overlay file
// that puts them in place of the originals. It works on types, not on names.
//
// usage: instrument OUTDIR GO PACKAGE...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
}

const root = "github.com/tychoish/birch"

func main() {
	out, gobin, args := os.Args[1], os.Args[2], os.Args[3:]
	cmd := exec.Command(gobin, append([]string{"list", "-race", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard"}, args...)...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "go list:", err)
		os.Exit(2)
	}
	pkgs := map[string]*pkg{}
	var order []string
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p.ImportPath)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	overlay := map[string]string{}
	n := 0
	for _, path := range order {
		if path != root && !strings.HasPrefix(path, root+"/") {
			continue
		}
		p := pkgs[path]
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(full)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			af, err := parser.ParseFile(fset, full, src, parser.SkipObjectResolution)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			files = append(files, af)
			srcs = append(srcs, src)
		}
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Uses:       map[*ast.Ident]types.Object{},
		}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		_, _ = conf.Check(path, fset, files, info)
		for i, af := range files {
			r := &rewriter{fset: fset, file: af, src: srcs[i], info: info, tf: fset.File(af.Pos())}
			if !r.run() {
				continue
			}
			n++
			dst := filepath.Join(out, fmt.Sprintf("%03d_%s", n, p.GoFiles[i]))
			if err := os.WriteFile(dst, r.result(), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("instrumented %d files\n", n)
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type rewriter struct {
	fset    *token.FileSet
	file    *ast.File
	src     []byte
	info    *types.Info
	tf      *token.File
	edits   []edit
	seq     int
	n       int
	usesNet bool
}

func (r *rewriter) off(p token.Pos) int { return r.tf.Offset(p) }

func (r *rewriter) replace(p, e token.Pos, text string) {
	r.seq++
	r.edits = append(r.edits, edit{r.off(p), r.off(e), text, r.seq})
}

// insertAfter inserts at p; later calls go further outside.
func (r *rewriter) insertAfter(p token.Pos, text string) { r.replace(p, p, text) }

// insertBefore inserts at p; later calls go further outside (before).
func (r *rewriter) insertBefore(p token.Pos, text string) {
	r.seq++
	r.edits = append(r.edits, edit{r.off(p), r.off(p), text, -r.seq})
}

// render applies the edits inside [p,e) to that part of the source.
func (r *rewriter) render(lo, hi int, es []edit) string {
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		// insertions "before" (negative) come first, the outermost first;
		// replacements after insertions that end at the same place
		ei, ej := es[i].end > es[i].pos, es[j].end > es[j].pos
		if ei != ej {
			return !ei
		}
		// insertions after a node precede insertions before the next one
		bi, bj := es[i].seq < 0, es[j].seq < 0
		if bi != bj {
			return !bi
		}
		return es[i].seq < es[j].seq
	})
	var b strings.Builder
	at := lo
	for _, e := range es {
		if e.pos < at {
			continue
		}
		b.Write(r.src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(r.src[at:hi])
	return b.String()
}

// take renders a node and forgets the edits inside of it.
func (r *rewriter) take(n ast.Node) string {
	lo, hi := r.off(n.Pos()), r.off(n.End())
	var in, rest []edit
	for _, e := range r.edits {
		if e.pos >= lo && e.end <= hi {
			in = append(in, e)
		} else {
			rest = append(rest, e)
		}
	}
	r.edits = rest
	return r.render(lo, hi, in)
}

func (r *rewriter) result() []byte {
	body := r.render(0, len(r.src), r.edits)
	tail := "\nvar _ = mcrt_.Yield\n"
	if r.usesNet {
		tail += "\nvar _ = mcrtnet_.Listen\nvar _ = net.ErrClosed\n"
	}
	return []byte(body + tail)
}

func (r *rewriter) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) run() bool {
	for _, im := range r.file.Imports {
		p := ""
		switch strings.Trim(im.Path.Value, "\"`") {
		case "sync":
			p = `sync "birchmc/mcrt/msync"`
		case "sync/atomic":
			p = `atomic "birchmc/mcrt/matomic"`
		case "context":
			p = `context "birchmc/mcrt/mctx"`
		default:
			continue
		}
		if im.Name != nil {
			p = p[strings.IndexByte(p, ' ')+1:]
		}
		r.replace(im.Path.Pos(), im.Path.End(), p)
	}
	for _, d := range r.file.Decls {
		r.walk(d)
	}
	if len(r.edits) == 0 {
		return false
	}
	imp := `; import mcrt_ "birchmc/mcrt"`
	if r.usesNet {
		imp += `; import mcrtnet_ "birchmc/mcrt/mnet"`
	}
	r.insertAfter(r.file.Name.End(), imp)
	return true
}

func (r *rewriter) walk(n ast.Node) {
	if n == nil {
		return
	}
	switch x := n.(type) {
	case *ast.LabeledStmt:
		if s, ok := x.Stmt.(*ast.SelectStmt); ok {
			r.selectStmt(s, x.Pos())
			return
		}
	case *ast.SelectStmt:
		r.selectStmt(x, x.Pos())
		return
	case *ast.GoStmt:
		r.goStmt(x)
		return
	case *ast.AssignStmt:
		if len(x.Rhs) == 1 && len(x.Lhs) == 2 {
			if u := recvOf(x.Rhs[0]); u != nil {
				r.children(x)
				r.fixRecv2(u)
				return
			}
		}
	case *ast.ValueSpec:
		if len(x.Values) == 1 && len(x.Names) == 2 {
			if u := recvOf(x.Values[0]); u != nil {
				r.children(x)
				r.fixRecv2(u)
				return
			}
		}
	}
	r.children(n)
	switch x := n.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			r.replace(x.OpPos, x.OpPos+2, "mcrt_.Recv(")
			r.insertAfter(x.End(), ")")
		}
	case *ast.SendStmt:
		r.insertBefore(x.Pos(), "mcrt_.Send(")
		r.replace(x.Arrow, x.Arrow+2, ",")
		r.insertAfter(x.End(), ")")
	case *ast.RangeStmt:
		if r.isChan(x.X) {
			r.insertBefore(x.X.Pos(), "mcrt_.Range(")
			r.insertAfter(x.X.End(), ")")
		}
	case *ast.CallExpr:
		r.call(x)
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x
			}
		}
		return nil
	}
}

func (r *rewriter) fixRecv2(u *ast.UnaryExpr) {
	for i, e := range r.edits {
		if e.pos == r.off(u.OpPos) && e.text == "mcrt_.Recv(" {
			r.edits[i].text = "mcrt_.Recv2("
		}
	}
}

func (r *rewriter) children(n ast.Node) {
	first := true
	ast.Inspect(n, func(m ast.Node) bool {
		if first {
			first = false
			return true
		}
		if m != nil {
			r.walk(m)
		}
		return false
	})
}

func (r *rewriter) call(x *ast.CallExpr) {
	if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
		if _, b := r.info.Uses[id].(*types.Builtin); b {
			r.replace(id.Pos(), id.End(), "mcrt_.Close")
		}
		return
	}
	sel, ok := x.Fun.(*ast.SelectorExpr)
	if !ok {
		return
	}
	if id, ok := sel.X.(*ast.Ident); ok {
		if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
			if pn.Imported().Path() == "net" && sel.Sel.Name == "Listen" {
				r.replace(id.Pos(), id.End(), "mcrtnet_")
				r.usesNet = true
			}
			return
		}
	}
	s := r.info.Selections[sel]
	if s == nil || s.Kind() != types.MethodVal {
		return
	}
	fn, ok := s.Obj().(*types.Func)
	if !ok || fn.Pkg() == nil {
		return
	}
	switch fn.Pkg().Path() {
	case "github.com/tychoish/fun/erc", "github.com/tychoish/fun/adt":
	default:
		return
	}
	if n := len(x.Args); n > 0 {
		a := x.Args[n-1]
		tv := r.info.Types[a]
		if _, tuple := tv.Type.(*types.Tuple); tuple || tv.Type == nil || tv.IsNil() || tv.Value != nil || x.Ellipsis.IsValid() {
			return
		}
		r.insertBefore(a.Pos(), "mcrt_.V(")
		r.insertAfter(a.End(), ")")
		return
	}
	tv := r.info.Types[sel.X]
	if tv.Type == nil {
		return
	}
	if _, ptr := tv.Type.Underlying().(*types.Pointer); ptr {
		r.insertBefore(sel.X.Pos(), "mcrt_.V(")
		r.insertAfter(sel.X.End(), ")")
	} else if tv.Addressable() {
		r.insertBefore(sel.X.Pos(), "mcrt_.P(&")
		r.insertAfter(sel.X.End(), ")")
	}
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	r.children(x.Call)
	r.call(x.Call)
	c := x.Call
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && fl.Type.Results.NumFields() == 0 {
		f := r.take(c.Fun)
		r.whole(x, "mcrt_.Go("+f+")")
		return
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if _, b := r.info.Uses[id].(*types.Builtin); b {
			t := r.take(c)
			r.whole(x, "mcrt_.Go(func() { "+t+" })")
			return
		}
	}
	r.n++
	id := r.n
	var b, call strings.Builder
	fmt.Fprintf(&b, "{ mcgf%d := %s; ", id, r.take(c.Fun))
	fmt.Fprintf(&call, "mcgf%d(", id)
	for i, a := range c.Args {
		if i > 0 {
			call.WriteString(", ")
		}
		tv := r.info.Types[a]
		_, tuple := tv.Type.(*types.Tuple)
		if tv.IsNil() || tv.Value != nil || tuple || tv.Type == nil {
			call.WriteString(r.take(a))
			continue
		}
		fmt.Fprintf(&b, "mcga%d_%d := %s; ", id, i, r.take(a))
		fmt.Fprintf(&call, "mcga%d_%d", id, i)
	}
	if c.Ellipsis.IsValid() {
		call.WriteString("...")
	}
	call.WriteString(")")
	r.whole(x, b.String()+"mcrt_.Go(func() { "+call.String()+" }) }")
}

// whole replaces a node.
func (r *rewriter) whole(n ast.Node, text string) {
	r.take(n)
	r.replace(n.Pos(), n.End(), text)
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, start token.Pos) {
	if len(x.Body.List) == 0 {
		return
	}
	r.n++
	id := r.n
	var pre, sel strings.Builder
	hasDefault := false
	k := 0
	var names []string
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		for _, s := range cc.Body {
			r.walk(s)
		}
		if cc.Comm == nil {
			hasDefault = true
			continue
		}
		name := fmt.Sprintf("mcs%d_%d", id, k)
		var u *ast.UnaryExpr
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			r.walk(s.Chan)
			r.walk(s.Value)
			fmt.Fprintf(&pre, "%s := %s; mcv%d_%d := mcrt_.Elem(%s, %s); ", name, r.take(s.Chan), id, k, name, r.take(s.Value))
			r.replace(s.Chan.Pos(), s.Chan.End(), name)
			r.replace(s.Value.Pos(), s.Value.End(), fmt.Sprintf("mcv%d_%d", id, k))
			fmt.Fprintf(&sel, ", mcrt_.S(%s)", name)
		case *ast.ExprStmt:
			u = recvOf(s.X)
		case *ast.AssignStmt:
			u = recvOf(s.Rhs[0])
			for _, l := range s.Lhs {
				r.walk(l)
			}
		}
		if u != nil {
			r.walk(u.X)
			fmt.Fprintf(&pre, "%s := %s; ", name, r.take(u.X))
			r.replace(u.X.Pos(), u.X.End(), name)
			fmt.Fprintf(&sel, ", mcrt_.R(%s)", name)
		}
		r.insertAfter(cc.Colon+1, fmt.Sprintf(" mcrt_.Post(mcb%d);", id))
		names = append(names, name)
		k++
	}
	if k == 0 {
		return
	}
	fmt.Fprintf(&pre, "mck%d, mcb%d := mcrt_.Sel(%v%s); _ = mcb%d; switch mck%d { ", id, id, hasDefault, sel.String(), id, id)
	for i := range names {
		fmt.Fprintf(&pre, "case %d: ", i)
		for j, m := range names {
			if j != i {
				fmt.Fprintf(&pre, "%s = nil; ", m)
			}
		}
	}
	pre.WriteString("}; ")
	r.insertBefore(start, "{ "+pre.String())
	r.insertAfter(x.End(), " }")
}
