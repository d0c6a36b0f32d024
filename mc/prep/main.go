// prep generates, from /repo's current working tree, a `go build -overlay` file that
//   - replaces imports of "os", "fmt" and a few others in all non-test files of the module by shims that run on
//     an in-memory file system under the checker's control,
//   - makes the packages under /verif/mc/go visible as <module>/internal/...,
//   - makes the command's main package callable as <module>/internal/verifmain.
//
// Usage: prep -repo /repo -src /verif/mc/go -out DIR [-patch FILE=COPY]...
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	repo = flag.String("repo", "/repo", "")
	src  = flag.String("src", "/verif/mc/go", "")
	out  = flag.String("out", "/verif/build/gen", "")
)

// shimOf lists the packages of the standard library that reach files, output or the process, with their stand-ins.
var shimOf = map[string]string{"os": "verifos", "fmt": "verifmt", "path/filepath": "veriffilepath", "io/ioutil": "verifioutil", "log": "veriflog"}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "prep:", err)
		os.Exit(3)
	}
}

func main() {
	flag.Parse()
	replace := map[string]string{}
	mod := modulePath()
	die(os.MkdirAll(*out, 0o755))
	shims := map[string]string{}
	for p := range shimOf {
		shims[p] = mod + "/internal/" + shimOf[p]
	}

	die(filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		if d.IsDir() {
			if n := d.Name(); p != *repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor" || strings.HasPrefix(n, "_")) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		text, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, text, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		newText := rewrite(fset, f, text, shims)
		if f.Name.Name == "main" {
			// the command: make a callable copy of it
			if strings.HasPrefix(rel, "cmd/neojhat/") {
				off := fset.Position(f.Name.Pos()).Offset
				// offsets before the imports are unaffected by rewrite
				t := newText[:off] + "verifmain" + newText[off+len("main"):]
				dst := filepath.Join(*out, "main_"+filepath.Base(p))
				die(os.WriteFile(dst, []byte(t), 0o644))
				replace[filepath.Join(*repo, "internal/verifmain", filepath.Base(p))] = dst
			}
			return nil
		}
		if newText != string(text) {
			dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
			die(os.WriteFile(dst, []byte(newText), 0o644))
			replace[p] = dst
		}
		return nil
	}))
	entry := filepath.Join(*out, "verifmain_entry.go")
	die(os.WriteFile(entry, []byte("package verifmain\n\n// Main runs the command.\nfunc Main() { main() }\n"), 0o644))
	replace[filepath.Join(*repo, "internal/verifmain/zz_entry.go")] = entry

	// checker sources
	die(filepath.WalkDir(*src, func(p string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(*src, p)
		replace[filepath.Join(*repo, "internal", rel)] = p
		return nil
	}))

	// forwarders
	for p, shim := range shimOf {
		dst := filepath.Join(*out, shim+"_fwd.go")
		gen(p, shim, dst, definedIn(filepath.Join(*src, shim)))
		replace[filepath.Join(*repo, "internal", shim, "zz_fwd.go")] = dst
	}

	b, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	die(err)
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

func modulePath() string {
	b, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	die(err)
	for _, l := range strings.Split(string(b), "\n") {
		if r, ok := strings.CutPrefix(strings.TrimSpace(l), "module "); ok {
			return strings.TrimSpace(r)
		}
	}
	die(fmt.Errorf("no module line"))
	return ""
}

// rewrite replaces import paths, keeping the local names.
func rewrite(fset *token.FileSet, f *ast.File, text []byte, shims map[string]string) string {
	type edit struct {
		a, b int
		s    string
	}
	var edits []edit
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to, ok := shims[path]
		if !ok {
			continue
		}
		s := strconv.Quote(to)
		if im.Name == nil {
			s = path[strings.LastIndex(path, "/")+1:] + " " + s
		}
		edits = append(edits, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, s})
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].a > edits[j].a })
	t := string(text)
	for _, e := range edits {
		t = t[:e.a] + e.s + t[e.b:]
	}
	return t
}

func definedIn(dir string) map[string]bool {
	names := map[string]bool{}
	ents, err := os.ReadDir(dir)
	die(err)
	for _, e := range ents {
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
		die(err)
		for k := range exported(f) {
			names[k] = true
		}
	}
	return names
}

func exported(f *ast.File) map[string]string {
	r := map[string]string{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.IsExported() {
				r[d.Name.Name] = "func"
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					if s.Name.IsExported() {
						r[s.Name.Name] = "type"
					}
				case *ast.ValueSpec:
					for _, n := range s.Names {
						if n.IsExported() {
							if d.Tok == token.CONST {
								r[n.Name] = "const"
							} else {
								r[n.Name] = "var"
							}
						}
					}
				}
			}
		}
	}
	return r
}

func gen(pkg, name, dst string, skip map[string]bool) {
	p, err := build.Import(pkg, "", 0)
	die(err)
	all := map[string]string{}
	for _, g := range p.GoFiles {
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(p.Dir, g), nil, parser.SkipObjectResolution)
		die(err)
		for k, v := range exported(f) {
			all[k] = v
		}
	}
	var keys []string
	for k := range all {
		if !skip[k] {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var sb strings.Builder
	fmt.Fprintf(&sb, "// generated\n\npackage %s\n\nimport real_ %q\n\n", name, pkg)
	for _, k := range keys {
		switch all[k] {
		case "type":
			fmt.Fprintf(&sb, "type %s = real_.%s\n", k, k)
		case "const":
			fmt.Fprintf(&sb, "const %s = real_.%s\n", k, k)
		default:
			fmt.Fprintf(&sb, "var %s = real_.%s\n", k, k)
		}
	}
	die(os.WriteFile(dst, []byte(sb.String()), 0o644))
}
