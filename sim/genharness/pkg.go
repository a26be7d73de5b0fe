package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/alxarch/njson/verifsim/simrt"
)

type src = simrt.Source

// pkg is a generated package.
type pkg struct {
	name    string
	test    bool
	files   []string
	text    map[string]string
	structs []string
	bad     bool // has a struct that no code can be generated for
	multi   bool
	dup     bool
	imports int
}

// filename is the output file's name.
func (p *pkg) output() string {
	if p.test {
		return strings.TrimSuffix(p.name, "_test") + "_njson_test.go"
	}
	return p.name + "_njson.go"
}

func (p *pkg) write(dir string) {
	for _, f := range p.files {
		if err := os.WriteFile(filepath.Join(dir, f), []byte(p.text[f]), 0o644); err != nil {
			panic(err)
		}
	}
}

var fieldNames = []string{"A", "B", "C", "Name", "ID", "URL", "FooBar", "Lat", "Lon", "a", "name", "Value", "X1"}
var tagNames = []string{"", "a", "b", "name", "A", "Name", "foo_bar", "x", "-"}
var basics = []string{"string", "int", "bool", "float64", "uint32", "int8", "float32", "uint64"}

type field struct{ decl, tag string }

// genPkg draws a package.
func genPkg(g *src, allowBad bool) *pkg {
	p := &pkg{name: []string{"foo", "bar", "things"}[g.N(3)], text: map[string]string{}}
	if g.Bool(1, 6) {
		p.test = true
		p.name += "_test"
	}
	nf := 1 + g.Pick(3, 3, 2, 1)
	p.multi = nf > 1
	bodies := make([]strings.Builder, nf)
	imps := make([]map[string]bool, nf)
	for i := range imps {
		imps[i] = map[string]bool{}
	}
	// named helper types; kinds decides how their values are coded
	named := []string{}
	if g.Bool(1, 2) {
		i := g.N(nf)
		bodies[i].WriteString("type Named string\n\ntype Ints []int\n\ntype Dict map[string]float64\n\n")
		named = append(named, "Named", "Ints", "Dict")
	}
	if g.Bool(1, 3) {
		i := g.N(nf)
		bodies[i].WriteString("type Self int\n\nfunc (s Self) AppendJSON(out []byte) ([]byte, error) { return append(out, '1'), nil }\n\ntype Texty string\n\nfunc (t Texty) MarshalText() ([]byte, error) { return []byte(t), nil }\nfunc (t *Texty) UnmarshalText(b []byte) error { *t = Texty(b); return nil }\n\ntype Jsony int\n\nfunc (t Jsony) MarshalJSON() ([]byte, error) { return []byte(\"1\"), nil }\nfunc (t *Jsony) UnmarshalJSON(b []byte) error { return nil }\n\n")
		named = append(named, "Self", "Texty", "Jsony")
	}
	ns := 1 + g.Pick(2, 3, 3, 2, 1, 1, 1)
	if g.Bool(1, 20) {
		ns = 8 + g.N(14)
	}
	badAt := -1
	if allowBad && g.Bool(1, 6) {
		badAt = g.N(ns)
		p.bad = true
	}
	for i := 0; i < ns; i++ {
		name := []string{"Foo", "Bar", "Baz", "Node", "item", "Alpha_", "Zed"}[i%7]
		if i >= 7 {
			name += fmt.Sprint(i)
		}
		at := g.N(nf)
		imp := imps[at]
		var typ func(depth int) string
		typ = func(depth int) string {
			k := g.Pick(6, 1, 1, 1, 1, 1, 1)
			if depth > 2 {
				k = 0
			}
			switch k {
			case 1:
				return "[]" + typ(depth+1)
			case 2:
				return "*" + typ(depth+1)
			case 3:
				return "map[string]" + typ(depth+1)
			case 4:
				if len(named) > 0 {
					return named[g.N(len(named))]
				}
			case 5:
				if i > 0 {
					return p.structs[g.N(i)]
				}
			case 6:
				p.imports++
				switch g.N(5) {
				case 0:
					imp["time"] = true
					return "time.Time"
				case 1:
					imp["time"] = true
					return "time.Duration"
				case 2:
					imp["net/url"] = true
					return "url.Values"
				case 3:
					imp["text/template/parse"] = true
					return "parse.Pos"
				default:
					imp["text/scanner"] = true
					return "scanner.Position"
				}
			}
			return basics[g.N(len(basics))]
		}
		b := &bodies[at]
		fmt.Fprintf(b, "type %s struct {\n", name)
		used := map[string]bool{}
		for n := 1 + g.N(6); n > 0; n-- {
			if i > 0 && g.Bool(1, 4) {
				e := p.structs[g.N(i)]
				if !used[e] {
					used[e] = true
					if g.Bool(1, 3) {
						b.WriteString("\t*" + e)
					} else {
						b.WriteString("\t" + e)
					}
					b.WriteString(tag(g, p, e) + "\n")
				}
				continue
			}
			f := fieldNames[g.N(len(fieldNames))]
			if used[f] {
				continue
			}
			used[f] = true
			t := typ(0)
			tg := tag(g, p, t)
			if j := strings.IndexByte(tg, '"'); j >= 0 {
				key := strings.TrimRight(tg[j:], "`")
				p.dup = p.dup || used[key]
				used[key] = true
			}
			fmt.Fprintf(b, "\t%s %s%s\n", f, t, tg)
		}
		if i == badAt {
			b.WriteString("\tBroken " + []string{"chan int", "func()", "[3]int", "complex128", "interface{ M() }"}[g.N(5)] + "\n")
		}
		b.WriteString("}\n\n")
		p.structs = append(p.structs, name)
	}
	for i := range bodies {
		f := fmt.Sprintf("%c%d", "zfakm"[(i*3+ns)%5], i)
		if p.test {
			f += "_test"
		}
		f += ".go"
		p.files = append(p.files, f)
		var h strings.Builder
		if i == 0 && ns%2 == 0 {
			h.WriteString("// Package comment.\n")
		}
		fmt.Fprintf(&h, "package %s\n\n", p.name)
		keys := []string{}
		for k := range imps[i] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Fprintf(&h, "import %q\n", k)
		}
		p.text[f] = h.String() + "\n" + bodies[i].String()
	}
	return p
}

func tag(g *src, p *pkg, typ string) string {
	if g.Bool(2, 5) {
		return ""
	}
	key := "json"
	if g.Bool(1, 8) {
		key = "njson"
	}
	n := tagNames[g.N(len(tagNames))]
	opt := ""
	omittable := !strings.Contains(typ, ".") || strings.HasPrefix(typ, "*") || strings.HasPrefix(typ, "[]") || strings.HasPrefix(typ, "map")
	for _, s := range p.structs {
		if typ == s {
			omittable = false
		}
	}
	if omittable && g.Bool(1, 3) {
		opt += ",omitempty"
	}
	if g.Bool(1, 10) {
		opt += ",raw"
	}
	if n == "" && opt == "" {
		return ""
	}
	return fmt.Sprintf(" `%s:%q`", key, n+opt)
}

// renamed is the package under another name.
func (p *pkg) renamed(name string) *pkg {
	q := *p
	q.name, q.text = name, map[string]string{}
	for f, s := range p.text {
		q.text[f] = strings.Replace(s, "package "+p.name+"\n", "package "+name+"\n", 1)
	}
	return &q
}

// grown is the package with a file of more structs, or without that file if it has it.
func (p *pkg) grown(g *src) *pkg {
	q := p.renamed(p.name)
	q.files = nil
	extra := "extra.go"
	if p.test {
		extra = "extra_test.go"
	}
	q.structs = nil
	for _, s := range p.structs {
		if !strings.HasPrefix(s, "Extra") {
			q.structs = append(q.structs, s)
		}
	}
	for _, f := range p.files {
		if f != extra {
			q.files = append(q.files, f)
		}
	}
	if len(q.files) < len(p.files) {
		delete(q.text, extra)
		return q
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n", p.name)
	for i, n := 0, 1+g.N(4); i < n; i++ {
		s := fmt.Sprintf("Extra%d", i)
		q.structs = append(q.structs, s)
		fmt.Fprintf(&b, "type %s struct {\n", s)
		for k, m := 0, 1+g.N(6); k < m; k++ {
			fmt.Fprintf(&b, "\tF%d %s\n", k, basics[g.N(len(basics))])
		}
		b.WriteString("}\n\n")
	}
	q.files = append(q.files, extra)
	q.text[extra] = b.String()
	return q
}
