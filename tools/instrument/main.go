// Command instrument rewrites a package's source so that every goroutine start, channel operation, select,
// range over a channel or map, and every use of sync, sync/atomic, time, context, math/rand and uuid goes
// through the controlled scheduler, and every access to a field of one of the module's structs can be turned
// into a scheduling point. It works on the text of expressions by source range, so the code's structure,
// names and comments survive; it knows nothing about the code it rewrites.
//
//	instrument -dir /repo/streams -out DIR -overlay FILE pkg...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const rt = "github.com/aws/go-kafka-event-source/streams/zverif/"

var replaced = map[string][2]string{ // path -> replacement, default name
	"sync":                   {rt + "vsync", "sync"},
	"sync/atomic":            {rt + "vatomic", "atomic"},
	"time":                   {rt + "vtime", "time"},
	"context":                {rt + "vcontext", "context"},
	"math/rand":              {rt + "vrand", "rand"},
	"github.com/google/uuid": {rt + "vuuid", "uuid"},
	"os/signal":              {rt + "vsignal", "signal"},
	"math/rand/v2":           {rt + "vrand2", "rand"},
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Name       string
}

func main() {
	dir := flag.String("dir", "/repo/streams", "module directory")
	out := flag.String("out", "", "output directory")
	fields := flag.Bool("fields", true, "instrument field accesses")
	modfile := flag.String("modfile", "", "modfile")
	sites := flag.String("sites", "", "write the site table here")
	mod := flag.String("module", "github.com/aws/go-kafka-event-source/", "prefix of instrumented import paths whose struct fields are instrumented")
	flag.Parse()
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Name"}
	if *modfile != "" {
		args = append(args, "-modfile", *modfile)
	}
	args = append(args, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	check(err)
	pkgs := map[string]*pkgInfo{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			check(err)
		}
		q := p
		pkgs[p.ImportPath] = &q
	}
	tg := exec.Command("go", append([]string{"list", "-f", "{{.ImportPath}}"}, flag.Args()...)...)
	tg.Dir = *dir
	tb, err := tg.Output()
	check(err)
	overlay := map[string]string{}
	siteNo := int32(0)
	var siteTab []string
	for _, ip := range strings.Fields(string(tb)) {
		p := pkgs[ip]
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			d := pkgs[path]
			if d == nil || d.Export == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(d.Export)
		})
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			src, err := os.ReadFile(filepath.Join(p.Dir, f))
			check(err)
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), src, parser.ParseComments)
			check(err)
			files = append(files, af)
			srcs = append(srcs, src)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Instances: map[*ast.Ident]types.Instance{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp, GoVersion: "go1.23"}
		_, err := conf.Check(ip, fset, files, info)
		check(err)
		for i, af := range files {
			r := &rewriter{fset: fset, info: info, src: srcs[i], base: fset.File(af.Pos()).Base(), file: af, fields: *fields, mod: *mod, siteNo: &siteNo, siteTab: &siteTab, name: filepath.Base(p.GoFiles[i])}
			res := r.fileText(i == 0)
			o := filepath.Join(*out, strings.ReplaceAll(ip, "/", "_"), p.GoFiles[i])
			check(os.MkdirAll(filepath.Dir(o), 0o755))
			check(os.WriteFile(o, []byte(res), 0o644))
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = o
		}
	}
	ob, _ := json.MarshalIndent(overlay, "", " ")
	check(os.WriteFile(filepath.Join(*out, "overlay.part.json"), ob, 0o644))
	if *sites != "" {
		check(os.WriteFile(*sites, []byte(strings.Join(siteTab, "\n")), 0o644))
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(3)
	}
}

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	src     []byte
	base    int
	file    *ast.File
	name    string
	fields  bool
	mod     string
	tmp     int
	used    bool
	siteNo  *int32
	siteTab *[]string
	labels  map[ast.Stmt]*ast.LabeledStmt
	skip    map[ast.Node]bool
	plain   map[ast.Node]int // selector -> 1 read, 2 write
}

func (r *rewriter) off(p token.Pos) int { return int(p) - r.base }

func (r *rewriter) raw(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

type edit struct {
	a, b int
	s    string
}

// span renders the source range [a,b) with the rewrites of the nodes in it.
func (r *rewriter) span(a, b token.Pos, nodes ...ast.Node) string {
	var edits []edit
	for _, n := range nodes {
		if n == nil {
			continue
		}
		r.collect(n, &edits)
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].a < edits[j].a })
	var sb strings.Builder
	p := r.off(a)
	for _, e := range edits {
		sb.Write(r.src[p:e.a])
		sb.WriteString(e.s)
		p = e.b
	}
	sb.Write(r.src[p:r.off(b)])
	return sb.String()
}

// text renders node n itself, rewritten.
func (r *rewriter) text(n ast.Node) string {
	return r.span(n.Pos(), n.End(), n)
}

// collect finds the outermost rewritable nodes in n (including n) and appends their replacements.
func (r *rewriter) collect(n ast.Node, edits *[]edit) {
	ast.Inspect(n, func(m ast.Node) bool {
		if m == nil {
			return false
		}
		if s, ok := r.rewrite(m); ok {
			*edits = append(*edits, edit{r.off(m.Pos()), r.off(m.End()), s})
			return false
		}
		return true
	})
}

func (r *rewriter) typeOf(e ast.Expr) types.Type { return r.info.Types[e].Type }

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := coreType(t).(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := coreType(t).(*types.Map)
	return ok
}

func coreType(t types.Type) types.Type {
	if tp, ok := t.(*types.TypeParam); ok {
		if i, ok := tp.Constraint().Underlying().(*types.Interface); ok && i.NumEmbeddeds() == 1 {
			if u, ok := i.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				return u.Term(0).Type().Underlying()
			}
			return i.EmbeddedType(0).Underlying()
		}
		return t
	}
	return t.Underlying()
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) pkgFunc(e ast.Expr, pkg, name string) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok || s.Sel.Name != name {
		return false
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	return ok && pn.Imported().Path() == pkg
}

func (r *rewriter) v(prefix string) string {
	r.tmp++
	return fmt.Sprintf("zv%s%d", prefix, r.tmp)
}

func (r *rewriter) constOrNil(e ast.Expr) bool {
	tv := r.info.Types[e]
	return tv.Value != nil || tv.IsNil()
}

func (r *rewriter) rewrite(n ast.Node) (string, bool) {
	if r.skip[n] {
		return "", false
	}
	switch x := n.(type) {
	case *ast.ImportSpec:
		path := strings.Trim(x.Path.Value, `"`)
		if rep, ok := replaced[path]; ok {
			name := rep[1]
			if x.Name != nil {
				name = x.Name.Name
			}
			return name + ` "` + rep[0] + `"`, true
		}
	case *ast.GoStmt:
		r.used = true
		return r.goStmt(x), true
	case *ast.SendStmt:
		r.used = true
		return "vsched.To(" + r.text(x.Chan) + ").Send(" + r.text(x.Value) + ")", true
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			r.used = true
			f := "Recv"
			if _, ok := r.typeOf(x).(*types.Tuple); ok {
				f = "Recv2"
			}
			return "vsched." + f + "(" + r.text(x.X) + ")", true
		}
	case *ast.LabeledStmt:
		switch x.Stmt.(type) {
		case *ast.SelectStmt, *ast.RangeStmt:
			r.labels[x.Stmt] = x
			if s, ok := r.rewrite(x.Stmt); ok {
				if strings.Contains(s, labelMark) {
					return strings.Replace(s, labelMark, x.Label.Name+": ", 1), true
				}
				return x.Label.Name + ": " + s, true
			}
		}
	case *ast.SelectStmt:
		r.used = true
		return r.selectStmt(x), true
	case *ast.RangeStmt:
		t := r.typeOf(x.X)
		if isChan(t) {
			r.used = true
			return r.rangeChan(x), true
		}
		if isMap(t) {
			r.used = true
			return r.rangeMap(x), true
		}
	case *ast.CallExpr:
		if len(x.Args) == 1 && isChan(r.typeOf(x.Args[0])) {
			for _, b := range [][2]string{{"close", "Close"}, {"len", "Len"}} {
				if r.isBuiltin(x.Fun, b[0]) {
					r.used = true
					return "vsched." + b[1] + "(" + r.text(x.Args[0]) + ")", true
				}
			}
		}
		if r.pkgFunc(x.Fun, "runtime", "Gosched") {
			r.used = true
			return "vsched.Yield()", true
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
			if sel, ok := x.Lhs[0].(*ast.SelectorExpr); ok && r.plain[sel] == 2 {
				if x.Tok == token.ASSIGN && r.mentions(x.Rhs[0], sel) {
					return r.update(sel, r.text(x.Rhs[0])), true
				}
				if op := strings.TrimSuffix(x.Tok.String(), "="); x.Tok != token.ASSIGN && x.Tok != token.DEFINE && !r.calls(sel.X) {
					return r.update(sel, r.access(sel, 1)+" "+op+" ("+r.text(x.Rhs[0])+")"), true
				}
			}
		}
	case *ast.IncDecStmt:
		if sel, ok := x.X.(*ast.SelectorExpr); ok && r.plain[sel] == 2 && !r.calls(sel.X) {
			return r.update(sel, r.access(sel, 1)+" "+x.Tok.String()[:1]+" 1"), true
		}
	case *ast.SelectorExpr:
		if k := r.plain[x]; k != 0 {
			return r.access(x, k), true
		}
	}
	return "", false
}

// access renders a plain access to a field: 1 read, 2 write, 3 read of an element of a map, 4 write of one.
func (r *rewriter) access(x *ast.SelectorExpr, k int) string {
	f := []string{"Rd", "Wr", "RdMap", "WrMap"}[k-1]
	return fmt.Sprintf("(*vsched.%s(&%s, %d))", f, r.span(x.Pos(), x.End(), x.X), r.site(x, k))
}

func (r *rewriter) site(x *ast.SelectorExpr, k int) int32 {
	r.used = true
	*r.siteNo++
	p := r.fset.Position(x.Pos())
	*r.siteTab = append(*r.siteTab, fmt.Sprintf("%d %s:%d %s %d", *r.siteNo, r.name, p.Line, r.raw(x), k))
	return *r.siteNo
}

// update renders an assignment to a field of a value that depends on the field: reading and writing it are two steps.
func (r *rewriter) update(x *ast.SelectorExpr, value string) string {
	return fmt.Sprintf("vsched.SetAt(&%s, %d)(%s)", r.span(x.Pos(), x.End(), x.X), r.site(x, 2), value)
}

// mentions reports whether e has the field of sel in it, outside of function literals.
func (r *rewriter) mentions(e ast.Expr, sel *ast.SelectorExpr) (found bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		if s, ok := n.(*ast.SelectorExpr); ok && r.info.Selections[s] != nil && r.info.Selections[s].Obj() == r.info.Selections[sel].Obj() {
			found = true
		}
		return true
	})
	return
}

func (r *rewriter) calls(e ast.Expr) (found bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			found = found || x.Op == token.ARROW
		}
		return true
	})
	return
}

const labelMark = "\x00LABEL\x00"

func (r *rewriter) goStmt(g *ast.GoStmt) string {
	call := g.Call
	var pre strings.Builder
	fun := ""
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		return "vsched.Go(" + r.text(fl) + ")"
	}
	generic := false
	switch f := call.Fun.(type) {
	case *ast.Ident:
		_, generic = r.info.Instances[f]
	case *ast.SelectorExpr:
		_, generic = r.info.Instances[f.Sel]
	}
	if generic || r.info.Types[call.Fun].IsBuiltin() {
		fun = r.text(call.Fun)
		if r.info.Types[call.Fun].IsBuiltin() {
			fun = r.raw(call.Fun)
		}
	} else {
		fun = r.v("f")
		fmt.Fprintf(&pre, "%s := %s; ", fun, r.text(call.Fun))
	}
	var args []string
	for _, a := range call.Args {
		if r.constOrNil(a) {
			args = append(args, r.text(a))
			continue
		}
		if _, ok := a.(*ast.FuncLit); ok {
			args = append(args, r.text(a))
			continue
		}
		v := r.v("a")
		fmt.Fprintf(&pre, "%s := %s; ", v, r.text(a))
		args = append(args, v)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	inner := fun + "(" + strings.Join(args, ", ") + ell + ")"
	if r.isBuiltin(call.Fun, "close") && isChan(r.typeOf(call.Args[0])) {
		inner = "vsched.Close(" + args[0] + ")"
	}
	return "{ " + pre.String() + "vsched.Go(func() { " + inner + " }) }"
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) string {
	var pre, sw strings.Builder
	hasDefault := false
	var cases []string
	idx := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		body := ""
		if len(cc.Body) > 0 {
			nodes := make([]ast.Node, len(cc.Body))
			for i, b := range cc.Body {
				nodes[i] = b
			}
			body = r.span(cc.Body[0].Pos(), cc.Body[len(cc.Body)-1].End(), nodes...)
		}
		if cc.Comm == nil {
			hasDefault = true
			fmt.Fprintf(&sw, "case -1:\n%s\n", body)
			continue
		}
		v := r.v("c")
		cases = append(cases, v)
		bind := ""
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			fmt.Fprintf(&pre, "%s := vsched.To(%s).SendCase(%s)\n", v, r.text(c.Chan), r.text(c.Value))
		case *ast.ExprStmt:
			fmt.Fprintf(&pre, "%s := vsched.RecvCase(%s)\n", v, r.text(unparen(c.X).(*ast.UnaryExpr).X))
		case *ast.AssignStmt:
			fmt.Fprintf(&pre, "%s := vsched.RecvCase(%s)\n", v, r.text(unparen(c.Rhs[0]).(*ast.UnaryExpr).X))
			var l []string
			for _, e := range c.Lhs {
				l = append(l, r.text(e))
			}
			rhs := v + ".V"
			if len(l) == 2 {
				rhs += ", " + v + ".OK"
			}
			bind = strings.Join(l, ", ") + " " + c.Tok.String() + " " + rhs + "\n"
		}
		fmt.Fprintf(&sw, "case %d:\n%s%s\n", idx, bind, body)
		idx++
	}
	label := ""
	if r.labels[s] != nil {
		label = labelMark
	}
	hd := "false"
	if hasDefault {
		hd = "true"
	}
	call := "vsched.Select(" + hd
	for _, c := range cases {
		call += ", " + c
	}
	call += ")"
	return "{\n" + pre.String() + label + "switch " + call + " {\n" + sw.String() + "default:\npanic(\"select\")\n}\n}"
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func name(e ast.Expr) string {
	if e == nil {
		return "_"
	}
	return ""
}

func (r *rewriter) rangeChan(s *ast.RangeStmt) string {
	vc, ok := r.v("ch"), r.v("ok")
	body := r.text(s.Body)
	if s.Tok == token.DEFINE && s.Key != nil {
		k := r.raw(s.Key)
		return fmt.Sprintf("for %s, %s, %s := vsched.RangeInit(%s); %s; %s, %s = vsched.Recv2(%s) %s", vc, k, ok, r.text(s.X), ok, k, ok, vc, body)
	}
	k := "_"
	if s.Key != nil {
		k = r.text(s.Key)
		v := r.v("v")
		return fmt.Sprintf("for %s, %s, %s := vsched.RangeInit(%s); %s; %s, %s = vsched.Recv2(%s) {\n%s = %s\n%s}", vc, v, ok, r.text(s.X), ok, v, ok, vc, k, v, body)
	}
	return fmt.Sprintf("for %s, _, %s := vsched.RangeInit(%s); %s; _, %s = vsched.Recv2(%s) %s", vc, ok, r.text(s.X), ok, ok, vc, body)
}

func (r *rewriter) rangeMap(s *ast.RangeStmt) string {
	it := r.v("it")
	body := r.text(s.Body)
	nm := func(e ast.Expr) (string, string) {
		if e == nil {
			return "_", "nil"
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return "_", "nil"
		}
		return r.text(e), "&" + r.text(e)
	}
	k, kp := nm(s.Key)
	v, vp := nm(s.Value)
	if s.Tok == token.ASSIGN {
		return fmt.Sprintf("for %s, _, _ := vsched.MapInit(%s); %s.Next(%s, %s); %s", it, r.text(s.X), it, kp, vp, body)
	}
	return fmt.Sprintf("for %s, %s, %s := vsched.MapInit(%s); %s.Next(%s, %s); %s", it, k, v, r.text(s.X), it, kp, vp, body)
}

// markFields decides which selector expressions are plain accesses to shared struct fields.
func (r *rewriter) markFields() {
	r.plain = map[ast.Node]int{}
	if !r.fields {
		return
	}
	var parents []ast.Node
	ast.Inspect(r.file, func(n ast.Node) bool {
		if n == nil {
			parents = parents[:len(parents)-1]
			return true
		}
		parents = append(parents, n)
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		sn := r.info.Selections[sel]
		if sn == nil || sn.Kind() != types.FieldVal {
			return true
		}
		fv, ok := sn.Obj().(*types.Var)
		if !ok || fv.Pkg() == nil || !strings.HasPrefix(fv.Pkg().Path(), r.mod) {
			return true
		}
		if !r.addressable(sel) || !r.throughPtr(sel) {
			return true
		}
		// synchronisation objects and embedded structs accessed further are not plain data
		t := fv.Type()
		if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != nil {
			switch nt.Obj().Pkg().Path() {
			case "sync", "sync/atomic":
				return true
			}
		}
		kind := 1
		var child ast.Node = sel
	up:
		for i := len(parents) - 2; i >= 0; i-- {
			switch p := parents[i].(type) {
			case *ast.ParenExpr:
				child = p
				continue
			case *ast.UnaryExpr:
				if p.Op == token.AND {
					return true // address taken (atomics, passing pointers)
				}
				break up
			case *ast.SelectorExpr:
				// part of a longer path x.f.g: if f is a struct value, the access is to g
				if p.X == child {
					if _, isStruct := t.Underlying().(*types.Struct); isStruct {
						return true
					}
					if s2 := r.info.Selections[p]; s2 != nil && s2.Kind() == types.MethodVal {
						if _, ptr := t.Underlying().(*types.Pointer); !ptr {
							if sig, ok := s2.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
								if _, pr := sig.Recv().Type().(*types.Pointer); pr {
									return true // implicit address
								}
							}
						}
					}
				}
				break up
			case *ast.IndexExpr:
				if p.X == child {
					// element access: an element write counts as a write for maps (and a read of the header)
					tt := t.Underlying()
					if _, m := tt.(*types.Map); m {
						kind = 3
						if i > 0 {
							if as, ok := parents[i-1].(*ast.AssignStmt); ok {
								for _, l := range as.Lhs {
									if l == p {
										kind = 4
									}
								}
							}
							if _, ok := parents[i-1].(*ast.IncDecStmt); ok {
								kind = 4
							}
						}
					}
				}
				break up
			case *ast.CallExpr:
				if (r.isBuiltin(p.Fun, "delete") || r.isBuiltin(p.Fun, "clear")) && len(p.Args) > 0 && p.Args[0] == child && isMap(t) {
					kind = 4
				}
				break up
			case *ast.AssignStmt:
				for _, l := range p.Lhs {
					if l == child {
						kind = 2
					}
				}
				break up
			case *ast.IncDecStmt:
				kind = 2
				break up
			case *ast.RangeStmt:
				if p.Key == child || p.Value == child {
					return true
				}
				if isMap(t) {
					kind = 3
				}
				break up
			default:
				break up
			}
		}
		r.plain[sel] = kind
		return true
	})
}

func (r *rewriter) addressable(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.Addressable()
}

// throughPtr: the field is reached through a pointer (or a captured/global variable), i.e. it can be shared.
func (r *rewriter) throughPtr(sel *ast.SelectorExpr) bool {
	for {
		if sn := r.info.Selections[sel]; sn != nil && sn.Indirect() {
			return true
		}
		t := r.typeOf(sel.X)
		if t == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return true
		}
		switch x := unparen(sel.X).(type) {
		case *ast.SelectorExpr:
			sel = x
		case *ast.IndexExpr:
			_, ok := r.typeOf(x.X).Underlying().(*types.Slice)
			return ok
		default:
			return false
		}
	}
}

func (r *rewriter) fileText(first bool) string {
	r.labels = map[ast.Stmt]*ast.LabeledStmt{}
	r.skip = map[ast.Node]bool{}
	r.markFields()
	body := r.span(token.Pos(r.base), token.Pos(r.base+len(r.src)), r.file)
	body = strings.ReplaceAll(body, labelMark, "")
	var resets strings.Builder
	k := 0
	for _, d := range r.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			vs := sp.(*ast.ValueSpec)
			for i, id := range vs.Names {
				if id.Name == "_" {
					continue
				}
				if len(vs.Values) == 0 {
					fmt.Fprintf(&resets, "\tvsched.OnReset(func() { var z %s; %s = z })\n", r.text(vs.Type), id.Name)
				} else if len(vs.Values) == len(vs.Names) {
					if !immutable(r, vs.Values[i]) {
						fmt.Fprintf(&resets, "\tvsched.OnReset(func() { %s = %s })\n", id.Name, r.text(vs.Values[i]))
					}
				}
				k++
			}
		}
	}
	tail := ""
	if resets.Len() > 0 {
		r.used = true
		tail = "\nfunc init() {\n" + resets.String() + "}\n"
	}
	if r.used {
		// import on the line after the package clause
		at := r.off(r.file.Name.End())
		// find the same place in the rewritten text: nothing before it is rewritten
		body = body[:at] + "\n\nimport vsched \"" + rt + "vsched\"\n" + body[at:]
	}
	return body + tail
}

// immutable initialisers need no reset: error values, constants, functions.
func immutable(r *rewriter, e ast.Expr) bool {
	tv := r.info.Types[e]
	if tv.Value != nil {
		return false
	}
	switch x := e.(type) {
	case *ast.FuncLit:
		return true
	case *ast.CallExpr:
		return r.pkgFunc(x.Fun, "errors", "New") || r.pkgFunc(x.Fun, "fmt", "Errorf")
	}
	return false
}
