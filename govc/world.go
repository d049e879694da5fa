package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Harness is one contract, check or lemma.
type Harness struct {
	name       string
	kind       string // contract, check, lemma, interface
	targetName string
	target     *ssa.Function
	fn         *ssa.Function
	props      []string
	verifyOnly bool
	method     *types.Func // interface contracts
	iface      string
	recvType   types.Type // interface conformance: dynamic type under check
	pos        string
	inline     []string
	tier       string
	timeout    int
	bounded    string
	suffix     string
	dynParam   string
	dynType    types.Type
	assumed    bool // used at calls, not verified
	internal   bool // not observable by itself
	must       bool // never set aside
	noReplay   bool
}

func (h *Harness) id() string {
	if h.suffix != "" {
		return h.name + "[" + h.suffix + "]"
	}
	return h.name
}

type World struct {
	hardStop   time.Time // no function is worked on past this time
	fset       *token.FileSet
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package // import path -> package (module packages)
	module     string
	harnesses  []*Harness
	contracts  map[string]*Harness
	ifaceC     map[string]*Harness
	invs       map[string]*ssa.Function // "fn#ord"
	opaque     map[string]bool
	pureFn     map[string]bool
	lemmas     map[*ssa.Function]*Harness
	pureMerge  map[*ssa.Function]bool
	ghostFiles map[string]bool
	ghostOuts  map[string]*ssa.Function
	ghostFails map[string]*ssa.Function
	mu         sync.Mutex
	loopMemo   map[*ssa.Function]*loopInfo
	dbgMemo    map[*ssa.Function]map[string][]debugVar
	typeIDs    map[string]int
	recMemo    map[*ssa.Function]bool
	allFuncs   map[string]*ssa.Function
	globInit   map[*ssa.Global]*globInfo
	grefs      map[*Ctx]map[*Term]*ssa.Global
	celems     map[*Ctx]map[*Term]*Term
	dropped    []string // contracts that no longer compile
	droppedP   map[string][]string
	repo       string
	implMemo   map[string][]types.Type
	overlay    map[string][]byte
	uf         map[string]bool
	regions    map[*ssa.BasicBlock]*ifRegion
	noMerge    bool
	ifaceM     map[*types.Func]*Harness
}

type globInfo struct {
	stores int
	val    ssa.Value
	slice  []*ssa.Const // elements of a slice that is never changed
	sliceD bool
}

var directiveRe = regexp.MustCompile(`^//\s*@\s*(\w+)\s*(.*)$`)

type directive struct {
	kind string
	rest string
	fn   string
	file string
	line int
}

// loadWorld type-checks /repo's current tree with the contract files laid
// over it and builds SSA.
func loadWorld(repo, contracts string) (*World, error) {
	w := &World{repo: repo, regions: map[*ssa.BasicBlock]*ifRegion{}, noMerge: os.Getenv("GOVC_NOMERGE") != "", uf: map[string]bool{}, ifaceM: map[*types.Func]*Harness{}, pkgs: map[string]*ssa.Package{}, contracts: map[string]*Harness{}, ifaceC: map[string]*Harness{}, invs: map[string]*ssa.Function{},
		opaque: map[string]bool{}, pureFn: map[string]bool{}, lemmas: map[*ssa.Function]*Harness{}, pureMerge: map[*ssa.Function]bool{}, ghostFiles: map[string]bool{}, ghostOuts: map[string]*ssa.Function{}, ghostFails: map[string]*ssa.Function{},
		loopMemo: map[*ssa.Function]*loopInfo{}, dbgMemo: map[*ssa.Function]map[string][]debugVar{}, typeIDs: map[string]int{}, recMemo: map[*ssa.Function]bool{}, allFuncs: map[string]*ssa.Function{},
		globInit: map[*ssa.Global]*globInfo{}, grefs: map[*Ctx]map[*Term]*ssa.Global{}, droppedP: map[string][]string{}, implMemo: map[string][]types.Type{}}
	dirs := map[string]string{"gopdf": repo, "core": filepath.Join(repo, "fontmaker/core")}
	overlay := map[string][]byte{}
	var names []string
	for sub, dst := range dirs {
		fs, _ := filepath.Glob(filepath.Join(contracts, sub, "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			n := filepath.Join(dst, "zz_verif_"+filepath.Base(f))
			overlay[n] = lazyImplies(n, b)
			names = append(names, n)
		}
	}
	sort.Strings(names)
	load := func() ([]*packages.Package, error) {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay,
			Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}
		return packages.Load(cfg, ".", "./fontmaker/core")
	}
	pkgs, err := load()
	if err != nil {
		return nil, err
	}
	// Contracts that no longer fit the code are dropped (and reported).
	for round := 0; round < 6; round++ {
		bad := map[string]map[int]string{} // file -> line -> message
		fatal := ""
		for _, p := range pkgs {
			for _, e := range p.Errors {
				file, line := splitPos(e.Pos)
				if _, ok := overlay[file]; ok {
					if bad[file] == nil {
						bad[file] = map[int]string{}
					}
					bad[file][line] = e.Msg
				} else {
					fatal = e.Error()
				}
			}
		}
		if len(bad) == 0 {
			if fatal != "" {
				return nil, fmt.Errorf("the code under /repo does not type-check: %s", fatal)
			}
			break
		}
		changed := false
		for file, lines := range bad {
			nb, dropped := dropDecls(file, overlay[file], lines)
			if len(dropped) > 0 {
				changed = true
				overlay[file] = nb
				for _, d := range dropped {
					w.dropped = append(w.dropped, d)
				}
			}
		}
		if !changed {
			return nil, fmt.Errorf("contract files do not type-check: %v", bad)
		}
		pkgs, err = load()
		if err != nil {
			return nil, err
		}
	}
	for _, n := range names {
		w.ghostFiles[n] = true
	}
	w.overlay = overlay
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	w.prog = prog
	w.fset = prog.Fset
	for _, p := range spkgs {
		if p != nil {
			p.Build()
			w.pkgs[p.Pkg.Path()] = p
			if w.module == "" || len(p.Pkg.Path()) < len(w.module) {
				w.module = p.Pkg.Path()
			}
		}
	}
	// standard library bodies are not needed; functions are built lazily only for the module
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && w.pkgs[fn.Pkg.Pkg.Path()] != nil || fn.Pkg == nil {
			w.allFuncs[fn.RelString(nil)] = fn
		}
	}
	w.globals()
	if err := w.directives(pkgs, overlay); err != nil {
		return nil, err
	}
	w.fsMemoAll()
	return w, nil
}

func splitPos(p string) (string, int) {
	parts := strings.Split(p, ":")
	if len(parts) < 2 {
		return p, 0
	}
	n := 0
	fmt.Sscanf(parts[1], "%d", &n)
	return parts[0], n
}

// dropDecls removes the top-level functions that contain the given error lines.
func dropDecls(file string, src []byte, lines map[int]string) ([]byte, []string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return src, nil
	}
	out := append([]byte{}, src...)
	var dropped []string
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		a, b := fset.Position(fd.Pos()), fset.Position(fd.End())
		hit := ""
		for l, m := range lines {
			if l >= a.Line && l <= b.Line {
				hit = m
			}
		}
		if hit == "" {
			continue
		}
		start := a.Offset
		doc := ""
		if fd.Doc != nil {
			start = fset.Position(fd.Doc.Pos()).Offset
			for _, c := range fd.Doc.List {
				if directiveRe.MatchString(c.Text) {
					doc += c.Text + " "
				}
			}
		}
		for i := start; i < b.Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
		dropped = append(dropped, fd.Name.Name+"\x00"+doc+"\x00"+hit)
	}
	return out, dropped
}

func (w *World) globals() {
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				w.globInit[g] = &globInfo{}
			}
		}
	}
	for _, fn := range w.allFuncs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						if gi := w.globInit[g]; gi != nil {
							gi.stores++
							gi.val = s.Val
							if fn.Name() != "init" {
								gi.stores += 10
							}
						}
					}
				} else {
					// address taken elsewhere
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							if _, isLoad := ins.(*ssa.UnOp); !isLoad {
								if _, isDbg := ins.(*ssa.DebugRef); !isDbg {
									if gi := w.globInit[g]; gi != nil {
										gi.stores += 10
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

func (w *World) globalRefsFor(c *Ctx) map[*Term]*ssa.Global {
	w.mu.Lock()
	defer w.mu.Unlock()
	m := w.grefs[c]
	if m == nil {
		m = map[*Term]*ssa.Global{}
		w.grefs[c] = m
	}
	return m
}

// constElems: the contents of the arrays behind constant slices.
func (x *Exec) constElems() map[*Term]*Term {
	w := x.w
	w.mu.Lock()
	defer w.mu.Unlock()
	m := w.celems[x.c]
	if m == nil {
		m = map[*Term]*Term{}
		if w.celems == nil {
			w.celems = map[*Ctx]map[*Term]*Term{}
		}
		w.celems[x.c] = m
	}
	return m
}

// globalValue: package variables that are set once, at initialisation.
func (x *Exec) globalValue(st *State, g *ssa.Global, p *Ptr) Value {
	gi := x.w.globInit[g]
	if gi == nil {
		// variable of another package: errors and the like
		return x.constGlobal(st, g, p)
	}
	if gi.stores > 1 {
		return nil
	}
	if gi.stores == 0 {
		if p.typ.Underlying() != nil {
			if _, ok := scalarSort(p.typ); ok {
				return x.zero(p.typ)
			}
		}
		return nil
	}
	if k, ok := gi.val.(*ssa.Const); ok {
		return x.constVal(k)
	}
	if el := x.w.constSlice(g, gi); el != nil {
		et := under(p.typ).(*types.Slice).Elem()
		arr := x.c.NamedSym("GA."+g.Pkg.Pkg.Path()+"."+g.Name(), SRef)
		if arr.stamp == 0 {
			arr.stamp = 1
			x.c.Fact(arr, x.c.Not(x.c.mk(&Term{op: "=", sort: SBool, args: []*Term{arr, x.c.Null}})))
		}
		content := x.c.ConstArr(arrSort(SInt, leavesOf(et)[0].sort), x.zero(et).(*Term))
		for i, k := range el {
			content = x.c.mk(&Term{op: "store", sort: content.sort, args: []*Term{content, x.c.Int(int64(i)), x.constVal(k).(*Term)}})
		}
		x.constElems()[arr] = content
		n := x.c.Int(int64(len(el)))
		return &VSlice{elem: et, arr: arr, off: x.c.Int(0), ln: n, cp: n}
	}
	return x.constGlobal(st, g, p)
}

// constSlice: the elements of a package variable that holds a slice literal
// of scalars nothing ever writes to; nil if that is not certain.
func (w *World) constSlice(g *ssa.Global, gi *globInfo) []*ssa.Const {
	w.mu.Lock()
	defer w.mu.Unlock()
	if gi.sliceD {
		return gi.slice
	}
	gi.sliceD = true
	sl, ok := under(g.Type().(*types.Pointer).Elem()).(*types.Slice)
	if !ok {
		return nil
	}
	if ls := leavesOf(sl.Elem()); len(ls) != 1 || ls[0].path != "" {
		return nil
	}
	if _, ok := scalarSort(sl.Elem()); !ok {
		return nil
	}
	v, ok := gi.val.(*ssa.Slice)
	if !ok || v.Low != nil || v.High != nil {
		return nil
	}
	al, ok := v.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := isArray(al.Type().(*types.Pointer).Elem())
	if !ok {
		return nil
	}
	el := make([]*ssa.Const, at.Len())
	for _, r := range *al.Referrers() {
		switch u := r.(type) {
		case *ssa.Slice:
			if u != v {
				return nil
			}
		case *ssa.IndexAddr:
			k, ok := u.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			for _, r := range *u.Referrers() {
				s, ok := r.(*ssa.Store)
				if !ok || s.Addr != u {
					return nil
				}
				c, ok := s.Val.(*ssa.Const)
				if !ok || el[k.Int64()] != nil {
					return nil
				}
				el[k.Int64()] = c
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	for i := range el {
		if el[i] == nil {
			el[i] = ssa.NewConst(constant.MakeInt64(0), sl.Elem())
		}
	}
	seen := map[ssa.Value]bool{}
	for _, fn := range w.allFuncs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.UnOp); ok && u.X == g {
					if !w.readOnly(u, seen) {
						return nil
					}
				}
			}
		}
	}
	gi.slice = el
	return el
}

// readOnly: nothing is ever written through the slice v.
func (w *World) readOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		switch u := r.(type) {
		case *ssa.DebugRef, *ssa.Index:
		case *ssa.Range:
		case *ssa.Convert:
		case *ssa.BinOp:
		case *ssa.IndexAddr:
			for _, r := range *u.Referrers() {
				switch l := r.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
					if l.Op != token.MUL {
						return false
					}
				default:
					return false
				}
			}
		case *ssa.Slice:
			if !w.readOnly(u, seen) {
				return false
			}
		case *ssa.Phi:
			if !w.readOnly(u, seen) {
				return false
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
				case "append", "copy":
					if u.Call.Args[0] == v {
						return false
					}
				default:
					return false
				}
				continue
			}
			if u.Call.IsInvoke() {
				return false
			}
			fn := u.Call.StaticCallee()
			if fn == nil {
				return false
			}
			for i, a := range u.Call.Args {
				if a != v {
					continue
				}
				if fn.String() == "(*crypto/rc4.Cipher).XORKeyStream" && i == 2 {
					continue
				}
				if fn.Blocks == nil || w.pkgs[fn.Pkg.Pkg.Path()] == nil || !w.readOnly(fn.Params[i], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (x *Exec) constGlobal(st *State, g *ssa.Global, p *Ptr) Value {
	t := p.typ
	if types.IsInterface(t) {
		r := x.c.NamedSym("GV."+g.Pkg.Pkg.Path()+"."+g.Name(), SRef)
		r.stamp = 1
		id := x.w.globalID(g)
		n := x.c.App("gid", SInt, r)
		x.c.Fact(r, x.c.mk(&Term{op: "not", sort: SBool, args: []*Term{x.c.mk(&Term{op: "=", sort: SBool, args: []*Term{r, x.c.Null}})}}),
			x.c.mk(&Term{op: "=", sort: SBool, args: []*Term{n, x.c.Int(int64(id))}}))
		return &VIface{ref: r}
	}
	return nil
}

func (w *World) globalID(g *ssa.Global) int {
	return w.idFor("global " + g.Pkg.Pkg.Path() + "." + g.Name())
}

func (w *World) idFor(s string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n, ok := w.typeIDs[s]; ok {
		return n
	}
	n := len(w.typeIDs) + 1
	w.typeIDs[s] = n
	return n
}

func (w *World) typeID(t types.Type) int { return w.idFor("type " + types.TypeString(t, nil)) }

// directives reads the //@ comments of the contract files.
func (w *World) directives(pkgs []*packages.Package, overlay map[string][]byte) error {
	for _, p := range pkgs {
		sp := w.pkgs[p.PkgPath]
		for _, f := range p.Syntax {
			fname := w.fset.Position(f.Pos()).Filename
			if !w.ghostFiles[fname] {
				continue
			}
			for _, cg := range f.Comments {
				for _, cm := range cg.List {
					m := directiveRe.FindStringSubmatch(cm.Text)
					if m == nil {
						continue
					}
					switch m[1] {
					case "opaque":
						for _, n := range strings.Fields(m[2]) {
							w.opaque[w.qualify(sp, n)] = true
						}
					case "uf":
						for _, n := range strings.Fields(m[2]) {
							w.uf[w.qualify(sp, n)] = true
						}
					case "pure":
						for _, n := range strings.Fields(m[2]) {
							w.pureFn[w.qualify(sp, n)] = true
						}
					}
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				fn := sp.Func(fd.Name.Name)
				if fn == nil {
					continue
				}
				if strings.HasPrefix(fd.Name.Name, "ghostOut_") && fn.Signature.Params().Len() == 1 {
					w.ghostOuts[typeKey(fn.Signature.Params().At(0).Type())] = fn
				}
				if strings.HasPrefix(fd.Name.Name, "ghostFailed_") && fn.Signature.Params().Len() == 1 {
					w.ghostFails[typeKey(fn.Signature.Params().At(0).Type())] = fn
				}
				if fd.Doc == nil {
					continue
				}
				for _, cm := range fd.Doc.List {
					m := directiveRe.FindStringSubmatch(cm.Text)
					if m == nil {
						continue
					}
					if err := w.directive(sp, fn, m[1], m[2], w.fset.Position(fd.Pos())); err != nil {
						return err
					}
				}
			}
		}
	}
	sort.Slice(w.harnesses, func(i, j int) bool { return w.harnesses[i].id() < w.harnesses[j].id() })
	return nil
}

func (w *World) qualify(sp *ssa.Package, n string) string {
	path := sp.Pkg.Path()
	if strings.HasPrefix(n, "(*") {
		return "(*" + path + "." + n[2:]
	}
	if strings.HasPrefix(n, "(") {
		return "(" + path + "." + n[1:]
	}
	return path + "." + n
}

func (w *World) directive(sp *ssa.Package, fn *ssa.Function, kind, rest string, pos token.Position) error {
	fields := strings.Fields(rest)
	opt := map[string]string{}
	var plain []string
	for _, f := range fields {
		if i := strings.IndexByte(f, '='); i > 0 {
			opt[f[:i]] = f[i+1:]
		} else {
			plain = append(plain, f)
		}
	}
	switch kind {
	case "contract", "check", "lemma", "interface":
		h := &Harness{name: fn.Name(), kind: kind, fn: fn, pos: fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line), tier: opt["tier"], bounded: opt["bounded"]}
		if p := opt["props"]; p != "" {
			h.props = strings.Split(p, ",")
		}
		if p := opt["inline"]; p != "" {
			for _, n := range strings.Split(p, ",") {
				h.inline = append(h.inline, w.qualify(sp, n))
			}
		}
		h.internal = opt["internal"] != ""
		h.must = opt["must"] != ""
		h.noReplay = opt["replay"] == "no"
		if t := opt["timeout"]; t != "" {
			fmt.Sscanf(t, "%d", &h.timeout)
		}
		switch kind {
		case "contract", "check":
			if len(plain) != 1 {
				return fmt.Errorf("%s: one target expected", h.pos)
			}
			h.targetName = w.qualify(sp, plain[0])
			h.target = w.allFuncs[h.targetName]
			if h.target == nil {
				w.dropped = append(w.dropped, fn.Name()+"\x00props="+opt["props"]+"\x00no function "+h.targetName)
				return nil
			}
			if kind == "contract" {
				if o := w.contracts[h.targetName]; o != nil {
					return fmt.Errorf("%s: second contract for %s", h.pos, h.targetName)
				}
				w.contracts[h.targetName] = h
				if opt["assumed"] != "" {
					h.assumed = true
					break
				}
			} else {
				h.verifyOnly = true
			}
			if d := opt["dyn"]; d != "" {
				// one verification per implementation of the interface parameter
				for i := 0; i < fn.Signature.Params().Len(); i++ {
					p := fn.Signature.Params().At(i)
					if p.Name() != d {
						continue
					}
					for _, im := range w.implementersAny(p.Type()) {
						k := *h
						k.dynParam, k.dynType, k.suffix = d, im, typeKey(im)
						w.harnesses = append(w.harnesses, &k)
					}
				}
				break
			}
			w.harnesses = append(w.harnesses, h)
		case "lemma":
			h.verifyOnly = true
			h.targetName = fn.Name()
			w.lemmas[fn] = h
			w.harnesses = append(w.harnesses, h)
		case "interface":
			h.iface = plain[0]
			i := strings.LastIndexByte(plain[0], '.')
			tn, mn := plain[0][:i], plain[0][i+1:]
			obj := sp.Pkg.Scope().Lookup(tn)
			if obj == nil {
				w.dropped = append(w.dropped, fn.Name()+"\x00props="+opt["props"]+"\x00no interface "+tn)
				return nil
			}
			it := under(obj.Type()).(*types.Interface)
			for k := 0; k < it.NumMethods(); k++ {
				if it.Method(k).Name() == mn {
					h.method = it.Method(k)
				}
			}
			if h.method == nil {
				w.dropped = append(w.dropped, fn.Name()+"\x00props="+opt["props"]+"\x00no method "+plain[0])
				return nil
			}
			w.ifaceC[typeKey(obj.Type())+"."+mn] = h
			w.ifaceM[h.method] = h
			// conformance of every implementation
			for _, im := range w.implementersBoth(obj.Type()) {
				if except(opt["except"], typeKey(im)) {
					continue
				}
				k := *h
				k.recvType = im
				k.suffix = typeKey(im)
				k.target = w.method(im, h.method)
				if k.target == nil {
					continue
				}
				k.targetName = fnName(k.target)
				w.harnesses = append(w.harnesses, &k)
			}
		}
	case "loop":
		if len(plain) != 2 {
			return fmt.Errorf("loop directive of %s: target and ordinal expected", fn.Name())
		}
		w.invs[w.qualify(sp, plain[0])+"#"+plain[1]] = fn
	case "merge":
		w.pureMerge[fn] = true
	case "opaque", "pure", "uf":
	default:
		return fmt.Errorf("%s: unknown directive %s", fn.Name(), kind)
	}
	return nil
}

// except: types an interface contract excludes by a precondition, so that
// call sites answer for them.
func except(list, key string) bool {
	for _, e := range strings.Split(list, ",") {
		if e == key {
			return true
		}
	}
	return false
}

func (w *World) implementers(t types.Type) []types.Type {
	key := typeKey(t)
	w.mu.Lock()
	if r, ok := w.implMemo[key]; ok {
		w.mu.Unlock()
		return r
	}
	w.mu.Unlock()
	it, ok := under(t).(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	var out []types.Type
	for _, p := range w.pkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if types.IsInterface(tn.Type()) || w.ghostFiles[w.fset.Position(tn.Pos()).Filename] {
				continue
			}
			if types.Implements(types.NewPointer(tn.Type()), it) {
				out = append(out, types.NewPointer(tn.Type()))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return typeKey(out[i]) < typeKey(out[j]) })
	w.mu.Lock()
	w.implMemo[key] = out
	w.mu.Unlock()
	return out
}

// implementersAny lists the module types that implement the interface, as
// values where values do.
func (w *World) implementersAny(t types.Type) []types.Type {
	it := under(t).(*types.Interface)
	var out []types.Type
	for _, p := range w.implementers(t) {
		e := p.(*types.Pointer).Elem()
		if types.Implements(e, it) {
			out = append(out, e)
		} else {
			out = append(out, p)
		}
	}
	return out
}

// implementersBoth: every dynamic type that implements the interface.
func (w *World) implementersBoth(t types.Type) []types.Type {
	it := under(t).(*types.Interface)
	var out []types.Type
	for _, p := range w.implementers(t) {
		out = append(out, p)
		if e := p.(*types.Pointer).Elem(); types.Implements(e, it) {
			out = append(out, e)
		}
	}
	return out
}

func (w *World) method(t types.Type, m *types.Func) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.unwrap(w.methodValue(sel))
}

func (w *World) methodValue(sel *types.Selection) *ssa.Function {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.prog.MethodValue(sel)
}

// unwrap: promoted-method wrappers are executed as they are.
func (w *World) unwrap(fn *ssa.Function) *ssa.Function { return fn }

func (w *World) methodByName(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.methodValue(ms.At(i))
		}
	}
	return nil
}

func (w *World) ifaceContract(key string) *Harness { return w.ifaceC[key] }

func (w *World) ghostOut(t types.Type) *ssa.Function { return w.ghostOuts[typeKey(t)] }

func (w *World) isGhost(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return w.ghostFiles[w.fset.Position(fn.Pos()).Filename]
}

func (w *World) inModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		// wrappers, bound methods
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return w.pkgs[fn.Object().Pkg().Path()] != nil
		}
		return false
	}
	return w.pkgs[fn.Pkg.Pkg.Path()] != nil
}

func (w *World) loops(fn *ssa.Function) *loopInfo {
	w.mu.Lock()
	defer w.mu.Unlock()
	if l, ok := w.loopMemo[fn]; ok {
		return l
	}
	l := computeLoops(fn)
	w.loopMemo[fn] = l
	return l
}

func (w *World) debugVars(fn *ssa.Function) map[string][]debugVar {
	w.mu.Lock()
	defer w.mu.Unlock()
	if d, ok := w.dbgMemo[fn]; ok {
		return d
	}
	d := collectDebugVars(fn)
	w.dbgMemo[fn] = d
	return d
}

func (w *World) invariant(fn *ssa.Function, ord int) *ssa.Function {
	return w.invs[fmt.Sprintf("%s#%d", fnName(fn), ord)]
}

func (w *World) isRecursive(fn *ssa.Function) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if r, ok := w.recMemo[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil {
						if s == fn {
							return true
						}
						if s.Pkg == fn.Pkg && rec(s) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	r := rec(fn)
	w.recMemo[fn] = r
	return r
}

func (w *World) fsMemoAll() {}

func (w *World) at(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	p := w.fset.Position(pos)
	return "@" + filepath.Base(p.Filename)
}

func (w *World) atLine(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	p := w.fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
}

func (w *World) callerName(st *State, rf *Frame) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i] == rf && i > 0 {
			return st.frames[i-1].fn.Name()
		}
	}
	return "?"
}
