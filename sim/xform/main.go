// xform rewrites Go packages so that every source of nondeterminism they touch (goroutines,
// channels, select, locks, timers, map iteration, ...) goes through the simulator runtime "simrt".
// It reads the packages as "go list" sees them and writes transformed copies; sources stay untouched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	EmbedFiles []string
	OtherFiles []string
	Standard   bool
	Incomplete bool
	Error      *struct{ Err string }
	ImportMap  map[string]string
}

// Rule says how to transform the packages whose import path has a prefix.
type Rule struct {
	Prefix  string            `json:"prefix"`  // import path prefix (whole path or path + "/...")
	Out     string            `json:"out"`     // new import path prefix
	Exclude []string          `json:"exclude"` // import path prefixes to leave out
	Yields  bool              `json:"yields"`  // statement level yield points
	Maps    bool              `json:"maps"`    // map race detection
	Imports map[string]string `json:"imports"` // import path rewriting (exact)
	Rename  []string          `json:"rename"`  // functions to rename to X__orig: "pkgpath.Func" or "pkgpath.Type.Func"
	Skip    []string          `json:"skip"`    // file name suffixes whose bodies are not rewritten
}

type Config struct {
	Module  string                       `json:"module"` // module path of the output
	RT      string                       `json:"rt"`     // import path of the simulator runtime
	Roots   []string                     `json:"roots"`
	Rules   []Rule                       `json:"rules"`
	Imports map[string]string            `json:"imports"`     // applies to every rule unless overridden
	PkgImp  map[string]map[string]string `json:"pkg_imports"` // extra import rewriting per package
}

var cfg Config

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "xform: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	cfgPath := flag.String("config", "", "")
	out := flag.String("out", "", "")
	src := flag.String("src", "", "")
	flag.Parse()
	bz, err := os.ReadFile(*cfgPath)
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(bz, &cfg); err != nil {
		fatal("config: %v", err)
	}

	args := append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,EmbedFiles,OtherFiles,Standard,Incomplete,Error,ImportMap"}, cfg.Roots...)
	args[4] = "-json"
	cmd := exec.Command("go", args...)
	cmd.Dir = *src
	var stdout bytes.Buffer
	cmd.Stdout = &stdout
	cmd.Stderr = os.Stderr
	if err := cmd.Run(); err != nil {
		fatal("go list: %v", err)
	}
	var pkgs []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(&stdout)
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		pkgs = append(pkgs, p)
	}

	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, p := range pkgs {
		r := ruleFor(p.ImportPath)
		if r == nil || p.Name == "main" {
			continue
		}
		if p.Error != nil {
			fatal("package %s: %s", p.ImportPath, p.Error.Err)
		}
		wg.Add(1)
		sem <- true
		go func(p *listPkg, r *Rule) {
			defer func() { <-sem; wg.Done() }()
			transformPkg(p, r, exports, *out)
		}(p, r)
	}
	wg.Wait()
}

func match(path, prefix string) bool {
	return path == prefix || strings.HasPrefix(path, prefix+"/")
}

func ruleFor(path string) *Rule {
	for i := range cfg.Rules {
		r := &cfg.Rules[i]
		if !match(path, r.Prefix) {
			continue
		}
		ok := true
		for _, e := range r.Exclude {
			if match(path, e) {
				ok = false
			}
		}
		if ok {
			return r
		}
	}
	return nil
}

func mapPath(path string) string {
	if r := ruleFor(path); r != nil {
		return r.Out + strings.TrimPrefix(path, r.Prefix)
	}
	return path
}

func transformPkg(p *listPkg, r *Rule, exports map[string]string, outRoot string) {
	newPath := mapPath(p.ImportPath)
	if !match(newPath, cfg.Module) {
		fatal("output path %s outside module", newPath)
	}
	outDir := filepath.Join(outRoot, strings.TrimPrefix(strings.TrimPrefix(newPath, cfg.Module), "/"))
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		fatal("%v", err)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		bz, err := os.ReadFile(path)
		if err != nil {
			fatal("%v", err)
		}
		af, err := parser.ParseFile(fset, path, bz, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, af)
		srcs[af] = bz
		names[af] = f
	}
	for _, f := range p.EmbedFiles {
		dst := filepath.Join(outDir, f)
		os.MkdirAll(filepath.Dir(dst), 0o755)
		bz, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(dst, bz, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	var terrs []error
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(err error) { terrs = append(terrs, err) }}
	conf.Check(p.ImportPath, fset, files, info)
	if len(terrs) > 0 {
		fatal("type errors in %s: %v", p.ImportPath, terrs[0])
	}
	for _, f := range files {
		x := &xf{fset: fset, file: f, src: srcs[f], info: info, rule: r, pkg: p.ImportPath, base: fset.File(f.Pos()).Base(), tf: fset.File(f.Pos())}
		x.run(names[f])
		if err := os.WriteFile(filepath.Join(outDir, names[f]), x.render(0, len(x.src)), 0o644); err != nil {
			fatal("%v", err)
		}
	}
}

type edit struct {
	pos, end int
	text     string
	kind     int // 0 suffix insert, 1 prefix insert, 2 replace
	seq      int
	dead     bool
}

type xf struct {
	fset  *token.FileSet
	tf    *token.File
	base  int
	file  *ast.File
	src   []byte
	info  *types.Info
	rule  *Rule
	pkg   string
	edits []*edit
	seq   int
	used  bool
	uniq  int
	sels  []*ast.SelectStmt
}

func (x *xf) off(p token.Pos) int { return x.tf.Offset(p) }

func (x *xf) add(e *edit) {
	x.seq++
	e.seq = x.seq
	x.edits = append(x.edits, e)
}
func (x *xf) pre(p token.Pos, s string) { x.add(&edit{pos: x.off(p), end: x.off(p), text: s, kind: 1}) }
func (x *xf) suf(p token.Pos, s string) { x.add(&edit{pos: x.off(p), end: x.off(p), text: s, kind: 0}) }
func (x *xf) rep(from, to token.Pos, s string) {
	x.add(&edit{pos: x.off(from), end: x.off(to), text: s, kind: 2})
}

// inside reports whether edit e belongs to the source range [from,to).
func inside(e *edit, from, to int) bool {
	if e.dead {
		return false
	}
	switch e.kind {
	case 0:
		return e.pos > from && e.pos <= to
	case 1:
		return e.pos >= from && e.pos < to
	}
	return e.pos >= from && e.end <= to
}

func (x *xf) render(from, to int) []byte {
	var es []*edit
	for _, e := range x.edits {
		if inside(e, from, to) || (!e.dead && from == 0 && to == len(x.src)) {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		if a.kind != b.kind {
			return a.kind < b.kind
		}
		if a.kind == 0 {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	at := from
	for _, e := range es {
		if e.pos < at {
			fatal("%s: overlapping edits at %s: %q", x.pkg, x.tf.Position(x.tf.Pos(e.pos)), e.text)
		}
		out.Write(x.src[at:e.pos])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(x.src[at:to])
	return out.Bytes()
}

// take renders a range and removes its edits (the text is going to be moved).
func (x *xf) take(from, to token.Pos) string {
	f, t := x.off(from), x.off(to)
	s := string(x.render(f, t))
	for _, e := range x.edits {
		if inside(e, f, t) {
			e.dead = true
		}
	}
	return s
}

func (x *xf) typ(e ast.Expr) types.Type {
	if tv, ok := x.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := x.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := x.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (x *xf) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = x.info.Uses[id].(*types.Builtin)
	return ok
}

func (x *xf) run(name string) {
	// imports
	for _, im := range x.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		np := path
		if m, ok := cfg.PkgImp[x.pkg][path]; ok {
			np = m
		} else if m, ok := x.rule.Imports[path]; ok {
			np = m
		} else if m, ok := cfg.Imports[path]; ok {
			np = m
		} else {
			np = mapPath(path)
		}
		skip := false
		for _, s := range x.rule.Skip {
			if strings.HasSuffix(name, s) && ruleFor(path) == nil {
				skip = true
			}
		}
		if np != path && !skip {
			x.rep(im.Path.Pos(), im.Path.End(), strconv.Quote(np))
		}
	}
	for _, s := range x.rule.Skip {
		if strings.HasSuffix(name, s) {
			return
		}
	}
	for _, d := range x.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			full := x.pkg + "."
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				t := fd.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if id, ok := t.(*ast.Ident); ok {
					full += id.Name + "."
				}
			}
			full += fd.Name.Name
			for _, rn := range x.rule.Rename {
				if rn == full {
					x.suf(fd.Name.End(), "__orig")
				}
			}
		}
		x.visit(d)
	}
	for i := len(x.sels) - 1; i >= 0; i-- { // innermost (later in pre-order) first
		x.doSelect(x.sels[i])
	}
	if x.used {
		x.suf(x.file.Name.End(), "; import simrt "+strconv.Quote(cfg.RT))
	}
}

func (x *xf) rt(s string) string { x.used = true; return "simrt." + s }

func (x *xf) visitList(l []ast.Stmt) {
	for _, s := range l {
		if x.rule.Yields {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			default:
				x.pre(s.Pos(), x.rt("Y(); "))
			}
		}
		x.visit(s)
	}
}

func (x *xf) visit(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(m ast.Node) bool {
		if m == nil {
			return false
		}
		switch s := m.(type) {
		case *ast.BlockStmt:
			x.visitList(s.List)
			return false
		case *ast.CaseClause:
			for _, e := range s.List {
				x.visit(e)
			}
			x.visitList(s.Body)
			return false
		case *ast.SelectStmt:
			x.sels = append(x.sels, s)
			for _, c := range s.Body.List {
				cc := c.(*ast.CommClause)
				switch cm := cc.Comm.(type) {
				case nil:
				case *ast.SendStmt:
					x.visit(cm.Chan)
					x.visit(cm.Value)
				case *ast.ExprStmt:
					x.visit(recvOf(cm.X).X)
				case *ast.AssignStmt:
					for _, l := range cm.Lhs {
						x.visitLHS(l)
					}
					x.visit(recvOf(cm.Rhs[0]).X)
				}
				x.visitList(cc.Body)
			}
			return false
		case *ast.GoStmt:
			x.doGo(s)
			return false
		case *ast.SendStmt:
			x.pre(s.Chan.Pos(), x.rt("SendTo("))
			x.visit(s.Chan)
			x.rep(s.Arrow, s.Arrow+2, ")(")
			x.visit(s.Value)
			x.suf(s.Value.End(), ")")
			return false
		case *ast.AssignStmt:
			if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
				if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					for _, l := range s.Lhs {
						x.visitLHS(l)
					}
					x.doRecv(u, "Recv2(")
					return false
				}
			}
			for _, l := range s.Lhs {
				x.visitLHS(l)
			}
			for _, r := range s.Rhs {
				x.visit(r)
			}
			return false
		case *ast.ValueSpec:
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					x.doRecv(u, "Recv2(")
					return false
				}
			}
			return true
		case *ast.IncDecStmt:
			x.visitLHS(s.X)
			return false
		case *ast.UnaryExpr:
			if s.Op == token.ARROW {
				x.doRecv(s, "Recv(")
				return false
			}
			return true
		case *ast.IndexExpr:
			if x.rule.Maps && isMap(x.typ(s.X)) {
				x.pre(s.X.Pos(), x.rt("MR("))
				x.visit(s.X)
				x.suf(s.X.End(), ")")
				x.visit(s.Index)
				return false
			}
			return true
		case *ast.CallExpr:
			if len(s.Args) >= 1 {
				switch {
				case x.isBuiltin(s.Fun, "close"):
					x.rep(s.Fun.Pos(), s.Fun.End(), x.rt("Close"))
				case x.isBuiltin(s.Fun, "len") && isChan(x.typ(s.Args[0])):
					x.rep(s.Fun.Pos(), s.Fun.End(), x.rt("ChLen"))
				case x.rule.Maps && x.isBuiltin(s.Fun, "delete"):
					x.pre(s.Args[0].Pos(), x.rt("MW("))
					x.visit(s.Args[0])
					x.suf(s.Args[0].End(), ")")
					x.visit(s.Args[1])
					return false
				}
			}
			return true
		case *ast.RangeStmt:
			return x.doRange(s)
		}
		return true
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	return unparen(e).(*ast.UnaryExpr)
}

func (x *xf) doRecv(u *ast.UnaryExpr, fn string) {
	x.rep(u.OpPos, u.OpPos+2, x.rt(fn))
	x.visit(u.X)
	x.suf(u.X.End(), ")")
}

// visitLHS handles an expression that is assigned to.
func (x *xf) visitLHS(l ast.Expr) {
	if ix, ok := unparen(l).(*ast.IndexExpr); ok && x.rule.Maps && isMap(x.typ(ix.X)) {
		x.pre(ix.X.Pos(), x.rt("MW("))
		x.visit(ix.X)
		x.suf(ix.X.End(), ")")
		x.visit(ix.Index)
		return
	}
	x.visit(l)
}

func (x *xf) text(n ast.Node) string { return string(x.src[x.off(n.Pos()):x.off(n.End())]) }

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (x *xf) doRange(s *ast.RangeStmt) bool {
	t := x.typ(s.X)
	ch, mp := isChan(t), isMap(t)
	if !ch && !mp {
		return true
	}
	x.uniq++
	it := fmt.Sprintf("_sit%d", x.uniq)
	k, v := "", ""
	if !isBlank(s.Key) {
		k = x.text(s.Key)
	}
	if !isBlank(s.Value) {
		v = x.text(s.Value)
	}
	fn, decl, args := "", "", ""
	if ch {
		fn = "ChIter"
	} else {
		fn = "MapIter"
	}
	switch {
	case k != "" && v != "":
		fn += "KV"
		decl, args = k+", "+v+", ", "&"+k+", &"+v
	case k != "":
		fn += "K"
		decl, args = k+", ", "&"+k
	case v != "":
		fn += "V"
		decl, args = v+", ", "&"+v
	}
	if s.Tok != token.DEFINE {
		decl = ""
		if ch {
			fn = "ChIter"
		} else {
			fn = "MapIter"
		}
	}
	next := map[string]string{"": "Next"}[""]
	if k != "" && v != "" {
		next = "NextKV"
	} else if k != "" {
		next = "NextK"
	} else if v != "" {
		next = "NextV"
	}
	x.rep(s.For, s.X.Pos(), "for "+decl+it+" := "+x.rt(fn)+"(")
	x.visit(s.X)
	x.rep(s.X.End(), s.Body.Lbrace, "); "+it+"."+next+"("+args+"); ")
	x.visit(s.Body)
	return false
}

func (x *xf) doGo(s *ast.GoStmt) {
	c := s.Call
	x.uniq++
	u := x.uniq
	fnv := fmt.Sprintf("_gf%d", u)
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, b := x.info.Uses[id].(*types.Builtin); b {
			x.rep(s.Go, s.Go+2, x.rt("Go(func() {"))
			x.visit(c)
			x.suf(c.End(), "})")
			return
		}
	}
	if len(c.Args) == 0 {
		if _, ok := unparen(c.Fun).(*ast.FuncLit); ok {
			x.rep(s.Go, s.Go+2, x.rt("Go("))
			x.visit(c.Fun)
			x.rep(c.Lparen, c.Rparen+1, ")")
			return
		}
	}
	x.rep(s.Go, s.Go+2, "{ "+fnv+" := ")
	x.visit(c.Fun)
	call := fnv + "("
	from := c.Lparen
	for i, a := range c.Args {
		if i > 0 {
			call += ", "
		}
		tv := x.info.Types[a]
		if tv.Value != nil && tv.Value.Kind() != constant.Unknown || tv.IsNil() {
			call += x.text(a)
			x.rep(from, a.End(), "")
		} else {
			av := fmt.Sprintf("_ga%d_%d", u, i)
			x.rep(from, a.Pos(), "; "+av+" := ")
			x.visit(a)
			call += av
		}
		from = a.End()
	}
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	call += ")"
	x.rep(from, c.Rparen+1, "; "+x.rt("Go(func() { ")+call+" }) }")
}

func (x *xf) doSelect(s *ast.SelectStmt) {
	x.uniq++
	u := x.uniq
	sel := fmt.Sprintf("_sel%d", u)
	hasDefault := "false"
	names, vals, ops := sel, x.rt("NewSel()"), ""
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			continue
		}
		cv := fmt.Sprintf("_sc%d_%d", u, idx)
		head := fmt.Sprintf("case %d: ", idx)
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			names += ", " + cv
			vals += ", " + x.take(cm.Chan.Pos(), cm.Chan.End())
			ops += ", " + x.rt("SelS(") + cv + ")(" + x.take(cm.Value.Pos(), cm.Value.End()) + ")"
		case *ast.ExprStmt:
			r := recvOf(cm.X)
			names += ", " + cv
			vals += ", " + x.take(r.X.Pos(), r.X.End())
			ops += ", " + x.rt("SelR(") + cv + ")"
		case *ast.AssignStmt:
			r := recvOf(cm.Rhs[0])
			names += ", " + cv
			vals += ", " + x.take(r.X.Pos(), r.X.End())
			ops += ", " + x.rt("SelR(") + cv + ")"
			lhs := ""
			for i, l := range cm.Lhs {
				if i > 0 {
					lhs += ", "
				}
				lhs += x.take(l.Pos(), l.End())
			}
			fn := "SelV("
			if len(cm.Lhs) == 2 {
				fn = "SelV2("
			}
			head += lhs + " " + cm.Tok.String() + " " + x.rt(fn) + sel + ", " + cv + "); "
		}
		x.rep(cc.Case, cc.Colon+1, head)
		idx++
	}
	x.rep(s.Select, s.Body.Lbrace, "switch "+names+" := "+vals+"; "+sel+".Do("+hasDefault+ops+") ")
	if hasDefault == "false" {
		x.suf(s.Body.Rbrace, " default: panic(\"simrt: unreachable\"); ")
	}
}
