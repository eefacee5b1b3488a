// instrument rewrites packages of the repository so that every goroutine, lock, channel, timer,
// atomic and file operation goes through the cooperative scheduler of verif_vsched. It writes the
// rewritten files and a go build overlay; the repository itself is not touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/sbraveyoung/GGmpeg"

// names of standard packages that have a replacement in verif_vsched
var subst = map[string]map[string]string{
	"sync": ident("", "Mutex RWMutex WaitGroup Once Cond NewCond Map Locker OnceFunc"),
	"sync/atomic": ident("Atomic", "AddInt32 AddInt64 AddUint32 AddUint64 LoadInt32 LoadInt64 LoadUint32 LoadUint64 StoreInt32 StoreInt64 StoreUint32 StoreUint64 "+
		"SwapInt32 SwapInt64 SwapUint32 SwapUint64 CompareAndSwapInt32 CompareAndSwapInt64 CompareAndSwapUint32 CompareAndSwapUint64 Bool Int32 Int64 Uint32 Uint64 Value Pointer"),
	"time":     ident("Time", "Now Sleep After AfterFunc NewTimer NewTicker Since Until Tick Timer Ticker"),
	"os":       ident("OS", "Create OpenFile Open Remove RemoveAll Rename WriteFile ReadFile MkdirAll Mkdir Stat ReadDir CreateTemp"),
	"net":      ident("Net", "Dial DialTimeout Listen ListenTCP ListenUDP UDPConn TCPListener TCPConn"),
	"net/http": ident("HTTP", "Serve"),
	"fmt":      ident("Fmt", "Print Printf Println"),
}

var keep = map[string]string{"sync": "Pool", "sync/atomic": "Uintptr", "time": "Duration", "os": "FileMode", "net": "IP", "net/http": "Header", "fmt": "Stringer"}

func ident(prefix, names string) map[string]string {
	m := map[string]string{}
	for _, n := range strings.Fields(names) {
		m[n] = prefix + n
	}
	return m
}

func fail(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, f+"\n", a...); os.Exit(1) }

type edit struct {
	from, to int
	text     string
	ord      int
}

type file struct {
	fset  *token.FileSet
	ast   *ast.File
	src   []byte
	base  *token.File
	info  *types.Info
	edits []edit
	stmt  bool
	used  map[string]string //import path -> local name
	nsel  int
}

func (f *file) off(p token.Pos) int { return f.base.Offset(p) }
func (f *file) rep(from, to token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(from), f.off(to), text, len(f.edits)})
}
func (f *file) ins(at token.Pos, text string) { f.rep(at, at, text) }

// render applies the edits lying within [from,to) of the source.
func (f *file) render(from, to int) string {
	var in []edit
	for _, e := range f.edits {
		if e.from >= from && e.to <= to && !(e.from == e.to && e.from == to) {
			in = append(in, e)
		}
	}
	sort.SliceStable(in, func(i, j int) bool {
		if in[i].from != in[j].from {
			return in[i].from < in[j].from
		}
		//insertions at a point come before a replacement starting there
		zi, zj := in[i].from == in[i].to, in[j].from == in[j].to
		if zi != zj {
			return zi
		}
		return in[i].ord < in[j].ord
	})
	var b bytes.Buffer
	at := from
	for _, e := range in {
		if e.from < at {
			continue //inside a replaced range
		}
		b.Write(f.src[at:e.from])
		b.WriteString(e.text)
		at = e.to
	}
	b.Write(f.src[at:to])
	return b.String()
}

func (f *file) isChan(x ast.Expr) bool {
	t := f.info.TypeOf(x)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (f *file) builtin(x ast.Expr, name string) bool {
	id, ok := x.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = f.info.Uses[id].(*types.Builtin)
	return ok
}

const V = "verif_vsched"

func (f *file) visit() {
	//receives in a two-value context
	two := map[ast.Expr]bool{}
	//communication clauses are handled with their select
	comm := map[ast.Node]bool{}
	var selects []*ast.SelectStmt
	labels := map[ast.Stmt]*ast.LabeledStmt{}
	ast.Inspect(f.ast, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				two[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				two[ast.Unparen(x.Values[0])] = true
			}
		case *ast.LabeledStmt:
			labels[x.Stmt] = x
		case *ast.SelectStmt:
			selects = append(selects, x)
			for _, c := range x.Body.List {
				cc := c.(*ast.CommClause)
				switch s := cc.Comm.(type) {
				case *ast.SendStmt:
					comm[s] = true
				case *ast.ExprStmt:
					comm[ast.Unparen(s.X)] = true
				case *ast.AssignStmt:
					comm[ast.Unparen(s.Rhs[0])] = true
				}
			}
		}
		return true
	})
	ast.Inspect(f.ast, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if pn, ok := f.info.Uses[id].(*types.PkgName); ok {
					path := pn.Imported().Path()
					if to, ok := subst[path][x.Sel.Name]; ok {
						f.rep(id.Pos(), x.Sel.End(), V+"."+to)
						f.used[path] = id.Name
					}
				}
			}
		case *ast.GoStmt:
			if _, ok := f.info.Uses[calleeIdent(x.Call)].(*types.Builtin); ok {
				break
			}
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				f.rep(x.Go, fl.Pos(), V+".Go(")
				f.rep(x.Call.Lparen, x.Call.Rparen, "")
				break
			}
			f.rep(x.Go, x.Call.Fun.Pos(), V+".GoCall(")
			if len(x.Call.Args) == 0 {
				f.rep(x.Call.Lparen, x.Call.Lparen+1, "")
			} else {
				f.rep(x.Call.Lparen, x.Call.Lparen+1, ", ")
				if x.Call.Ellipsis.IsValid() {
					fail("go statement with ... at %s", f.fset.Position(x.Pos()))
				}
			}
		case *ast.SendStmt:
			if comm[x] {
				break
			}
			f.ins(x.Pos(), V+".SendTo(")
			f.rep(x.Arrow, x.Arrow+2, ")(")
			f.ins(x.End(), ")")
		case *ast.UnaryExpr:
			if x.Op != token.ARROW || comm[x] {
				break
			}
			fn := "Recv"
			if two[x] {
				fn = "Recv2"
			}
			f.rep(x.OpPos, x.OpPos+2, V+"."+fn+"(")
			f.ins(x.End(), ")")
		case *ast.CallExpr:
			if len(x.Args) == 1 && f.isChan(x.Args[0]) {
				if f.builtin(x.Fun, "close") {
					f.rep(x.Fun.Pos(), x.Fun.End(), V+".Close")
				} else if f.builtin(x.Fun, "len") {
					f.rep(x.Fun.Pos(), x.Fun.End(), V+".Len")
				}
			}
		case *ast.RangeStmt:
			if !f.isChan(x.X) {
				break
			}
			f.nsel++
			r := "verif_r" + strconv.Itoa(f.nsel)
			f.rep(x.For, x.X.Pos(), "for "+r+" := "+V+".Ranger(")
			f.ins(x.X.End(), "); "+r+".Next(); ")
			if x.Key != nil {
				f.ins(x.Body.Lbrace+1, " "+string(f.src[f.off(x.Key.Pos()):f.off(x.Key.End())])+" "+x.Tok.String()+" "+r+".V; ")
			}
		case *ast.BlockStmt:
			f.steps(x.List)
		case *ast.CaseClause:
			f.steps(x.Body)
		case *ast.CommClause:
			f.steps(x.Body)
		}
		return true
	})
	//innermost selects first, so that outer ones see their text
	for i := len(selects) - 1; i >= 0; i-- {
		f.doSelect(selects[i], labels[selects[i]])
	}
}

func (f *file) steps(list []ast.Stmt) {
	if !f.stmt {
		return
	}
	for _, s := range list {
		switch s.(type) {
		case *ast.DeclStmt, *ast.EmptyStmt, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		f.ins(s.Pos(), V+".Step(); ")
	}
}

func (f *file) doSelect(x *ast.SelectStmt, lab *ast.LabeledStmt) {
	f.nsel++
	id := strconv.Itoa(f.nsel)
	var pre, args strings.Builder
	hasDefault := false
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		ch := "verif_c" + id + "_" + strconv.Itoa(n)
		sv := "verif_s" + id
		switch s := cc.Comm.(type) {
		case nil:
			hasDefault = true
			continue
		case *ast.SendStmt:
			fmt.Fprintf(&pre, "%s := %s; ", ch, f.render(f.off(s.Chan.Pos()), f.off(s.Chan.End())))
			fmt.Fprintf(&args, ", %s.SendCase(%s)(%s)", V, ch, f.render(f.off(s.Value.Pos()), f.off(s.Value.End())))
			f.rep(cc.Case, cc.Colon+1, "case "+strconv.Itoa(n)+":")
		case *ast.ExprStmt:
			u := ast.Unparen(s.X).(*ast.UnaryExpr)
			fmt.Fprintf(&pre, "%s := %s; ", ch, f.render(f.off(u.X.Pos()), f.off(u.X.End())))
			fmt.Fprintf(&args, ", %s.RecvCase(%s)", V, ch)
			f.rep(cc.Case, cc.Colon+1, "case "+strconv.Itoa(n)+":")
		case *ast.AssignStmt:
			u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			fmt.Fprintf(&pre, "%s := %s; ", ch, f.render(f.off(u.X.Pos()), f.off(u.X.End())))
			fmt.Fprintf(&args, ", %s.RecvCase(%s)", V, ch)
			lhs := f.render(f.off(s.Lhs[0].Pos()), f.off(s.Lhs[len(s.Lhs)-1].End()))
			rhs := V + ".As(" + ch + ", " + sv + ".V)"
			if len(s.Lhs) == 2 {
				rhs += ", " + sv + ".OK"
			}
			f.rep(cc.Case, cc.Colon+1, "case "+strconv.Itoa(n)+": "+lhs+" "+s.Tok.String()+" "+rhs+"; ")
		}
		n++
	}
	sv := "verif_s" + id
	l := ""
	if lab != nil {
		l = lab.Label.Name + ": "
		f.rep(lab.Pos(), x.Select, "")
	}
	f.rep(x.Select, x.Body.Lbrace+1, "{ "+pre.String()+l+"switch "+sv+" := "+V+".Select("+strconv.FormatBool(hasDefault)+args.String()+"); "+sv+".I { ")
	end := " }"
	if !hasDefault {
		end = " default: panic(\"unreachable\") }"
	}
	f.rep(x.Body.Rbrace, x.Body.Rbrace+1, end+" }")
}

func calleeIdent(c *ast.CallExpr) *ast.Ident {
	id, _ := ast.Unparen(c.Fun).(*ast.Ident)
	return id
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "gen", "")
	pkgs := flag.String("pkgs", "", "packages (directories) to instrument")
	stmts := flag.String("stmt", "", "files in which every statement is a scheduling point")
	flag.Parse()
	dirs := strings.Split(*pkgs, ",")
	stmt := map[string]bool{}
	for _, s := range strings.Split(*stmts, ",") {
		stmt[s] = true
	}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles"}
	for _, d := range dirs {
		args = append(args, "./"+d)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fail("go list: %v", err)
	}
	type pkg struct {
		ImportPath, Export, Dir string
		GoFiles                 []string
	}
	all := map[string]pkg{}
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fail("%v", err)
		}
		all[p.ImportPath] = p
	}
	overlay := map[string]string{}
	for _, d := range dirs {
		p := all[mod+"/"+d]
		fset := token.NewFileSet()
		var files []*ast.File
		var fs []*file
		for _, n := range p.GoFiles {
			path := filepath.Join(p.Dir, n)
			src, err := os.ReadFile(path)
			if err != nil {
				fail("%v", err)
			}
			a, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fail("%v", err)
			}
			files = append(files, a)
			fs = append(fs, &file{fset: fset, ast: a, src: src, base: fset.File(a.Pos()), used: map[string]string{}, stmt: stmt[d+"/"+n] || stmt[d]})
		}
		info := &types.Info{Uses: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			return os.Open(all[path].Export)
		})}
		if _, err := conf.Check(mod+"/"+d, fset, files, info); err != nil {
			fail("type check: %v", err)
		}
		for i, f := range fs {
			f.info = info
			f.visit()
			f.ins(f.ast.Name.End(), "; import "+V+" \""+mod+"/"+V+"\"; var _ = "+V+".Step")
			//the import must precede other declarations: keep the helper variable for the end
			f.edits[len(f.edits)-1].text = "; import " + V + " \"" + mod + "/" + V + "\""
			text := f.render(0, len(f.src))
			if !strings.Contains(text[:f.off(f.ast.Name.Pos())], "//go:build") {
				text = "//go:build go1.21\n\n//line " + filepath.Join(p.Dir, p.GoFiles[i]) + ":1\n" + text
			}
			text += "\nvar _ = " + V + ".Step\n"
			for path, name := range f.used {
				if path == "os" {
					text += "var _ " + name + "." + keep[path] + "\n"
				} else {
					text += "var _ " + name + "." + keep[path] + "\n"
				}
			}
			o := filepath.Join(*out, d, p.GoFiles[i])
			os.MkdirAll(filepath.Dir(o), 0o755)
			if err := os.WriteFile(o, []byte(text), 0o644); err != nil {
				fail("%v", err)
			}
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = o
		}
	}
	b, _ := json.Marshal(overlay)
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fail("%v", err)
	}
}
