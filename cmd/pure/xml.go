package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/sttp/goapi/sttp/xml"
	"verif.local/mc/mc"
)

// xnode is the reference document tree.
type xnode struct {
	name   string
	attrs  [][2]string
	text   string
	parent *xnode
	kids   []*xnode
	level  int
}

func (n *xnode) inner(b *strings.Builder) {
	b.WriteString(n.text)
	for _, k := range n.kids {
		k.write(b)
	}
}

func (n *xnode) write(b *strings.Builder) {
	b.WriteString("<" + n.name)
	for _, a := range n.attrs {
		b.WriteString(" " + a[0] + `="` + a[1] + `"`)
	}
	b.WriteString(">")
	n.inner(b)
	b.WriteString("</" + n.name + ">")
}

func (n *xnode) innerText() string {
	var b strings.Builder
	n.inner(&b)
	return b.String()
}

func (n *xnode) path() string {
	if n.parent == nil {
		return "//" + n.name
	}
	return n.parent.path() + "/" + n.name
}

type xseg struct {
	name      string
	attr      bool
	predName  string
	predValue *string
	pred      bool
	// form of the comparison: quoted, quoted with spaces, bare
	form int
}

func (s xseg) String() string {
	if !s.pred {
		return s.name
	}
	p := s.predName
	if s.attr {
		p = "@" + p
	}
	if s.predValue != nil {
		p += []string{"='" + *s.predValue + "'", " = '" + *s.predValue + "'", "=" + *s.predValue, " =  " + *s.predValue + " "}[s.form]
	}
	return s.name + "[" + p + "]"
}

func (s xseg) match(n *xnode) bool {
	if s.name != "*" && s.name != n.name {
		return false
	}
	if !s.pred {
		return true
	}
	if s.attr {
		for _, a := range n.attrs {
			if (s.predName == "*" || a[0] == s.predName) && (s.predValue == nil || *s.predValue == a[1]) {
				return true
			}
		}
		return false
	}
	for _, k := range n.kids {
		if (s.predName == "*" || k.name == s.predName) && (s.predValue == nil || *s.predValue == k.innerText()) {
			return true
		}
	}
	return false
}

func xselect(n *xnode, segs []xseg) []*xnode {
	cur := n.kids
	for i, s := range segs {
		var res []*xnode
		for _, k := range cur {
			if s.match(k) {
				res = append(res, k)
			}
		}
		if i == len(segs)-1 {
			return res
		}
		cur = nil
		for _, r := range res {
			cur = append(cur, r.kids...)
		}
	}
	return nil
}

// xshapes lists parent vectors of ordered trees with n nodes in preorder.
func xshapes(n int) [][]int {
	var out [][]int
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		// the next preorder node attaches to the last node or one of its ancestors
		for a := len(p) - 1; a >= 0; a = p[a] {
			rec(append(p[:len(p):len(p)], a))
		}
	}
	rec([]int{-1})
	return out
}

var xattrs = [][][2]string{nil, {{"x", "1"}}, {{"x", ""}, {"y", "1"}}, {{"y", "1=2"}}}
var xtexts = []string{"", "t", "1"}

func xbuild(shape []int, names, attrs, texts []int) *xnode {
	nodes := make([]*xnode, len(shape))
	for i, p := range shape {
		n := &xnode{name: []string{"a", "b", "r"}[names[i]], attrs: xattrs[attrs[i]], text: xtexts[texts[i]]}
		if p >= 0 {
			n.parent = nodes[p]
			n.level = nodes[p].level + 1
			nodes[p].kids = append(nodes[p].kids, n)
		}
		nodes[i] = n
	}
	return nodes[0]
}

func xsegs() []xseg {
	str := func(s string) *string { return &s }
	var out []xseg
	for _, n := range []string{"a", "b", "*"} {
		out = append(out, xseg{name: n})
		for _, p := range []string{"x", "y", "*"} {
			out = append(out, xseg{name: n, pred: true, attr: true, predName: p})
			for _, v := range []string{"1", ""} {
				out = append(out, xseg{name: n, pred: true, attr: true, predName: p, predValue: str(v)})
			}
		}
		for _, p := range []string{"a", "*"} {
			out = append(out, xseg{name: n, pred: true, predName: p})
			for _, v := range []string{"t", ""} {
				out = append(out, xseg{name: n, pred: true, predName: p, predValue: str(v)})
			}
		}
	}
	// values containing the comparison sign
	for _, v := range []string{"1=2", "1=3"} {
		out = append(out, xseg{name: "a", pred: true, attr: true, predName: "y", predValue: str(v)})
		out = append(out, xseg{name: "*", pred: true, attr: true, predName: "*", predValue: str(v), form: 3})
		out = append(out, xseg{name: "a", pred: true, predName: "a", predValue: str(v)})
	}
	for _, a := range []bool{true, false} {
		for form := 1; form < 4; form++ {
			p := "a"
			if a {
				p = "x"
			}
			out = append(out, xseg{name: "a", pred: true, attr: a, predName: p, predValue: str("1"), form: form})
			out = append(out, xseg{name: "*", pred: true, attr: a, predName: "*", predValue: str("t"), form: form})
		}
	}
	return out
}

// xcompare checks the loaded tree against the reference and maps nodes.
func xcompare(c *mc.C, doc *xml.XmlDocument, ref *xnode) map[*xml.XmlNode]*xnode {
	m := map[*xml.XmlNode]*xnode{}
	max := 0
	var walk func(n *xml.XmlNode, r *xnode)
	bad := func(r *xnode, what string, a ...any) {
		c.Fail("tree", "%s: %s", r.path(), fmt.Sprintf(what, a...))
	}
	walk = func(n *xml.XmlNode, r *xnode) {
		m[n] = r
		if r.level > max {
			max = r.level
		}
		if n.Name != r.name || n.Level != r.level || n.Owner != doc {
			bad(r, "name %q level %d", n.Name, n.Level)
		}
		if n.Path() != r.path() {
			bad(r, "path %q", n.Path())
		}
		if n.Value() != r.innerText() {
			bad(r, "value %q want %q", n.Value(), r.innerText())
		}
		if len(n.Attributes) != len(r.attrs) {
			bad(r, "%d attributes", len(n.Attributes))
		}
		for _, a := range r.attrs {
			if v, ok := n.Attributes[a[0]]; !ok || v != a[1] {
				bad(r, "attribute %s = %q", a[0], v)
			}
		}
		if len(n.ChildNodes) != len(r.kids) || n.HasChildNodes() != (len(r.kids) > 0) {
			bad(r, "%d children want %d", len(n.ChildNodes), len(r.kids))
			return
		}
		kids := n.GetChildNodes()
		if len(kids) != len(r.kids) {
			bad(r, "GetChildNodes returns %d", len(kids))
			return
		}
		if len(kids) == 0 {
			if n.FirstChild() != nil || n.LastChild() != nil {
				bad(r, "first/last child of a leaf")
			}
		} else if n.FirstChild() != kids[0] || n.LastChild() != kids[len(kids)-1] {
			bad(r, "first/last child")
		}
		byName := map[string][]*xml.XmlNode{}
		for i, k := range kids {
			if k.Parent != n {
				bad(r.kids[i], "parent link")
			}
			var prev, next *xml.XmlNode
			if i > 0 {
				prev = kids[i-1]
			}
			if i+1 < len(kids) {
				next = kids[i+1]
			}
			if k.Previous != prev || k.Next != next {
				bad(r.kids[i], "sibling links")
			}
			byName[r.kids[i].name] = append(byName[r.kids[i].name], k)
			walk(k, r.kids[i])
		}
		if len(n.Item) != len(byName) || len(n.Items) != len(byName) {
			bad(r, "child name index has %d/%d names want %d", len(n.Item), len(n.Items), len(byName))
		}
		for name, l := range byName {
			if n.Item[name] != l[0] {
				bad(r, "Item[%q] is not the first child of that name", name)
			}
			if len(n.Items[name]) != len(l) {
				bad(r, "Items[%q] has %d nodes want %d", name, len(n.Items[name]), len(l))
				continue
			}
			for i := range l {
				if n.Items[name][i] != l[i] {
					bad(r, "Items[%q][%d]", name, i)
				}
			}
		}
	}
	walk(&doc.Root, ref)
	if doc.Root.Parent != nil || doc.Root.Next != nil || doc.Root.Previous != nil {
		bad(ref, "root has parent or siblings")
	}
	if doc.MaxDepth() != max+1 {
		bad(ref, "MaxDepth %d want %d", doc.MaxDepth(), max+1)
	}
	return m
}

func xload(c *mc.C, doc *xml.XmlDocument, ref *xnode) string {
	var b strings.Builder
	ref.write(&b)
	s := b.String()
	c.CaseStr(s)
	if err := doc.LoadXml([]byte(s)); err != nil {
		c.Fail("load", "load failed: %v", err)
	}
	return s
}

func init() {
	register(mc.Check{
		ID:   "P34",
		Rule: "every ordered tree up to the node bound over two element names, four attribute sets and three texts, compared node by node; every path of up to two (thorough three) steps over names, wildcards and predicates; every pair of successive loads of small documents; states are distinct documents",
		Scenarios: func(tier string) []mc.Scenario {
			nodes, pathNodes := 6, 4
			if tier == "thorough" {
				nodes, pathNodes = 6, 5
			}
			segs := xsegs()
			var paths [][]xseg
			for _, a := range segs {
				paths = append(paths, []xseg{a})
				for _, b := range segs {
					paths = append(paths, []xseg{a, b})
				}
			}
			for _, a := range []string{"a", "*"} {
				for _, b := range segs {
					for _, d := range segs {
						if b.pred && d.pred && tier != "thorough" {
							continue
						}
						paths = append(paths, []xseg{{name: a}, b, d})
					}
				}
			}
			texts := make([]string, len(paths))
			for i, p := range paths {
				var s []string
				for _, x := range p {
					s = append(s, x.String())
				}
				texts[i] = strings.Join(s, "/")
			}
			var odo func(d []int, lim []int, f func())
			odo = func(d []int, lim []int, f func()) {
				for {
					f()
					i := len(d) - 1
					for ; i >= 0; i-- {
						d[i]++
						if d[i] < lim[i] {
							break
						}
						d[i] = 0
					}
					if i < 0 {
						return
					}
				}
			}
			return []mc.Scenario{
				{Name: "files", Pure: true, Body: xfiles},
				{Name: "sizes", Pure: true, Body: documentShapes},
				{Name: "structure", Pure: true, Body: func(c *mc.C) {
					n := 1 + c.Choose(nodes)
					sh := xshapes(n)
					shape := sh[c.Choose(len(sh))]
					names := make([]int, n)
					for i := range names {
						names[i] = c.Choose(2)
					}
					attrs := make([]int, n)
					txt := make([]int, n)
					lim := make([]int, n)
					for i := range lim {
						lim[i] = 3
					}
					odo(attrs, lim, func() {
						for i := range txt {
							txt[i] = (attrs[i]*2 + i) % 3
						}
						ref := xbuild(shape, names, attrs, txt)
						var doc xml.XmlDocument
						s := xload(c, &doc, ref)
						xcompare(c, &doc, ref)
						c.StateHash(mc.HashStr(s))
						c.Steps(n)
						c.Traces(1)
					})
				}},
				{Name: "select", Pure: true, Share: 4, Body: func(c *mc.C) {
					n := 2 + c.Choose(pathNodes-1)
					sh := xshapes(n)
					shape := sh[c.Choose(len(sh))]
					names := make([]int, n)
					for i := 1; i < n; i++ {
						names[i] = c.Choose(2)
					}
					rootIsR := c.Choose(2)
					if rootIsR == 1 {
						names[0] = 2
					}
					attrs := make([]int, n)
					txt := make([]int, n)
					// all attribute assignments of the non-root nodes, with texts of leaves tied to a second digit
					lim := make([]int, n-1)
					for i := range lim {
						lim[i] = 4
					}
					d := make([]int, n-1)
					odo(d, lim, func() {
						for i := 1; i < n; i++ {
							attrs[i] = d[i-1]
							txt[i] = (d[i-1] + d[(i)%(n-1)]) % 2
						}
						ref := xbuild(shape, names, attrs, txt)
						var doc xml.XmlDocument
						s := xload(c, &doc, ref)
						m := xcompare(c, &doc, ref)
						c.StateHash(mc.HashStr(s))
						for i, p := range paths {
							if len(p) > 2 && n < 4 {
								continue
							}
							want := xselect(ref, p)
							for v := 0; v < 3; v++ {
								var got []*xml.XmlNode
								text := texts[i]
								switch v {
								case 0:
									got = doc.SelectNodes(text)
								case 1:
									if i%7 != 0 {
										continue
									}
									text = "//" + ref.name + "/" + text
									got = doc.SelectNodes(text)
								case 2:
									if i%5 != 0 {
										continue
									}
									got = xml.SelectNodes([]*xml.XmlNode{&doc.Root}, text)
								}
								same := len(got) == len(want)
								for k := 0; same && k < len(got); k++ {
									same = m[got[k]] == want[k]
								}
								if !same {
									c.Case("%s select %s", s, text)
									c.Fail("select", "%d nodes, want %d (or another order)", len(got), len(want))
								}
								c.Steps(1)
							}
						}
						c.Traces(1)
					})
				}},
				{Name: "reload", Pure: true, Body: func(c *mc.C) {
					pick := func() *xnode {
						n := 1 + c.Choose(3)
						sh := xshapes(n)
						shape := sh[c.Choose(len(sh))]
						names := make([]int, n)
						attrs := make([]int, n)
						txt := make([]int, n)
						for i := range names {
							k := c.Choose(4)
							names[i], attrs[i], txt[i] = k%2, k%3, k/2
						}
						return xbuild(shape, names, attrs, txt)
					}
					a, b := pick(), pick()
					var doc xml.XmlDocument
					s := xload(c, &doc, a)
					s += xload(c, &doc, b)
					xcompare(c, &doc, b)
					c.StateHash(mc.HashStr(s))
					c.Steps(2)
				}},
				{Name: "malformed", Pure: true, Body: func(c *mc.C) {
					good := `<a x="1"><b>t</b><c/></a>`
					cut := c.Choose(len(good))
					c.CaseStr(good[:cut])
					guard(c, "panic", func() {
						var doc xml.XmlDocument
						if err := doc.LoadXml([]byte(good[:cut])); err == nil {
							c.Fail("malformed", "truncated document loads without error")
						}
					})
					var doc xml.XmlDocument
					doc.LoadXml([]byte(good))
					pieces := []string{"a", "b", "*", "/", "//", "[", "]", "@", "=", "'", "t", "", "[]", "''", " "}
					for _, x := range pieces {
						for _, y := range pieces {
							for _, z := range pieces {
								p := good[3:3+cut%3] + x + y + z
								c.CaseStr(p)
								guard(c, "panic-path", func() { doc.SelectNodes(p) })
								c.Steps(1)
							}
						}
					}
					c.State("cut", cut)
				}},
				{Name: "namespaces", Pure: true, Body: func(c *mc.C) {
					px := []string{"", "p:", "q:"}[c.Choose(3)]
					py := []string{"", "p:", "q:"}[c.Choose(3)]
					pa := []string{"", "p:", "q:"}[c.Choose(3)]
					def := c.Choose(2) == 1
					ns := map[string]string{"p:": "urn:p", "q:": "urn:q", "": ""}
					s := `<` + px + `r xmlns:p="urn:p" xmlns:q="urn:q"`
					if def {
						s += ` xmlns="urn:d"`
						ns[""] = "urn:d"
					}
					s += `><` + py + `e ` + pa + `k="v">t</` + py + `e></` + px + `r>`
					c.CaseStr(s)
					var doc xml.XmlDocument
					if err := doc.LoadXml([]byte(s)); err != nil {
						c.Fail("ns-load", "%v", err)
						return
					}
					e := doc.Root.Item["e"]
					if doc.Root.Name != "r" || doc.Root.Namespace != ns[px] || e == nil || e.Namespace != ns[py] {
						c.Fail("namespace", "root %q in %q", doc.Root.Name, doc.Root.Namespace)
						return
					}
					if px != "" && doc.Root.Prefix()+":" != px {
						c.Fail("prefix", "prefix %q", doc.Root.Prefix())
					}
					wantA := ns[pa]
					if pa == "" {
						wantA = ""
					}
					if e.Attributes["k"] != "v" || e.AttributeNamespaces["k"] != wantA {
						c.Fail("attribute-namespace", "%q in %q want %q", e.Attributes["k"], e.AttributeNamespaces["k"], wantA)
					}
					if len(doc.SelectNodes("e[@k='v']")) != 1 || e.Path() != "//r/e" {
						c.Fail("ns-select", "selection by local names")
					}
					c.State(s)
					c.Steps(1)
				}},
			}
		},
	})
}

// xfiles: every pair of small documents, damaged documents and missing files
// loaded one after the other from files.
func xfiles(c *mc.C) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_ROOT")+"/.build", "xml")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var refs []*xnode
	for n := 1; n <= 3; n++ {
		for _, shape := range xshapes(n) {
			for k := 0; k < 2; k++ {
				refs = append(refs, xbuild(shape, []int{k, 1 - k, k}[:n], []int{k, 2, 1}[:n], []int{1, k, 2}[:n]))
			}
		}
	}
	first := c.Choose(len(refs))
	for second := 0; second < len(refs)+2; second++ {
		var doc xml.XmlDocument
		for _, k := range []int{first, second} {
			name := filepath.Join(dir, fmt.Sprint(k))
			if k < len(refs) {
				var b strings.Builder
				refs[k].write(&b)
				os.WriteFile(name, []byte(b.String()), 0o600)
			}
			if k == len(refs) {
				os.WriteFile(name, []byte("<a><b></a>"), 0o600)
			}
			c.Case("file %d after file %d", k, first)
			err := doc.LoadXmlFromFile(name)
			if (err == nil) != (k < len(refs)) {
				c.Fail("file", "loading reports %v", err)
			}
			if err == nil {
				xcompare(c, &doc, refs[k])
			}
			c.Steps(1)
		}
		c.Traces(1)
		c.State("file", first, second)
	}
}
