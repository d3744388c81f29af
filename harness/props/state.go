package props

import (
	"fmt"
	"sort"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"pgregory.net/rapid"
	"vpharness/engine"
	"vpharness/glow"
)

// ---- reference model of a tree that merges announcements ----

type mnode struct {
	kind             string
	num              int32
	path             []int32
	c                *glow.Contents
	targets, sources []int32
	conns            []glow.Conn
	kids             map[int32]*mnode
	parent           *mnode
}

func newM(kind string, parent *mnode, num int32) *mnode {
	n := &mnode{kind: kind, num: num, parent: parent, kids: map[int32]*mnode{}}
	if parent != nil {
		n.path = append(append([]int32{}, parent.path...), num)
	}
	return n
}

func (n *mnode) find(path []int32) *mnode {
	for _, p := range path {
		if n = n.kids[p]; n == nil {
			return nil
		}
	}
	return n
}

func (n *mnode) walk(f func(*mnode)) {
	f(n)
	nums := make([]int, 0, len(n.kids))
	for k := range n.kids {
		nums = append(nums, int(k))
	}
	sort.Ints(nums)
	for _, k := range nums {
		n.kids[int32(k)].walk(f)
	}
}

// hits says which elements a message touched and how often.
type hits map[string]int

func pathKey(p []int32) string { return fmt.Sprint(p) }

// merge applies one announced element below parent.
func (parent *mnode) merge(e *glow.Elem, h hits, fresh bool) {
	num := e.Number()
	n := parent.kids[num]
	isNew := n == nil
	if isNew {
		n = newM(e.Kind, parent, num)
		parent.kids[num] = n
	}
	if e.C != nil {
		n.c = e.C
	}
	if len(e.Targets) > 0 {
		n.targets = e.Targets
	}
	if len(e.Sources) > 0 {
		n.sources = e.Sources
	}
	if len(e.Conns) > 0 && len(n.conns) > 0 {
		cs := append([]glow.Conn{}, n.conns...)
	next:
		for _, c := range e.Conns {
			for i := range cs {
				if cs[i].Target == c.Target {
					cs[i] = c
					continue next
				}
			}
			cs = append(cs, c)
		}
		n.conns = cs
	} else if len(e.Conns) > 0 {
		n.conns = e.Conns
	}
	for _, k := range e.Kids {
		n.merge(k, h, isNew || fresh)
	}
	if h != nil {
		h[pathKey(n.path)]++
	}
}

// announce applies a message to the tree.
func (root *mnode) announce(es []*glow.Elem, h hits) {
	for _, e := range es {
		if e.Qual && len(e.Path) > 1 {
			p := root.find(e.Path[:len(e.Path)-1])
			if p == nil {
				continue
			}
			isNew := p.kids[e.Number()] == nil
			p.merge(e, h, isNew)
			if h != nil && isNew {
				h[pathKey(p.path)]++
			}
			continue
		}
		root.merge(e, h, false)
	}
}

func kindOfElement(el *embertree.Element) string {
	k, _ := glow.KindOf(el.GetTag())
	return k
}

// checkMerged compares a library element and everything below with the model.
func (n *mnode) check(el *embertree.Element) error {
	at := fmt.Sprintf("%s %v", n.kind, n.path)
	if el == nil {
		return fmt.Errorf("%s is missing", at)
	}
	if el.Number != int(n.num) {
		return fmt.Errorf("%s has number %d", at, el.Number)
	}
	if kindOfElement(el) != n.kind {
		return fmt.Errorf("%s has tag 0x%x", at, el.GetTag())
	}
	if !sameOID(el.GetPath(), n.path) {
		return fmt.Errorf("%s has path %v", at, el.GetPath())
	}
	x := el.GetContent()
	if (x == nil) != (n.c == nil) {
		return fmt.Errorf("%s: contents present %v, want %v", at, x != nil, n.c != nil)
	}
	if n.c != nil {
		if err := checkContents(n.kind, n.c, x); err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
	}
	if n.kind == glow.Matrix {
		ts, e1 := el.GetTargets()
		ss, e2 := el.GetSources()
		cs, e3 := el.GetConnections()
		if e1 != nil || e2 != nil || e3 != nil {
			return fmt.Errorf("%s: matrix getters fail: %s %s %s", at, emsg(e1), emsg(e2), emsg(e3))
		}
		if err := checkSignals("targets", ts, n.targets, true); err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
		if err := checkSignals("sources", ss, n.sources, false); err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
		got, want := map[string]int{}, map[string]int{}
		for _, c := range cs {
			got[connText(c)]++
		}
		for _, c := range n.conns {
			want[modelConnText(c)]++
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Errorf("%s: connections are %v, want %v", at, got, want)
		}
	}
	if len(el.Children) != len(n.kids) {
		return fmt.Errorf("%s has %d children, want %d", at, len(el.Children), len(n.kids))
	}
	for num, k := range n.kids {
		c := el.Children[int(num)]
		if err := k.check(c); err != nil {
			return err
		}
		if p, e := c.GetParent(); e != nil || p != el {
			return fmt.Errorf("%v: its parent is not %v", k.path, n.path)
		}
	}
	return nil
}

func (root *mnode) checkRoot(tree *embertree.RootElement) error {
	if len(tree.RootElementCollection) != len(root.kids) {
		return fmt.Errorf("%d elements under the root, want %d", len(tree.RootElementCollection), len(root.kids))
	}
	for num, k := range root.kids {
		if err := k.check(tree.GetElementByNumber(int(num))); err != nil {
			return err
		}
	}
	return nil
}

func (root *mnode) checkLookup(tree *embertree.RootElement) error {
	var err error
	root.walk(func(n *mnode) {
		if err != nil || n.parent == nil {
			return
		}
		want := tree.GetElementByNumber(int(n.path[0]))
		var wantParent *embertree.Element
		for _, p := range n.path[1:] {
			wantParent, want = want, want.Children[int(p)]
		}
		p, el := tree.GetElementByPath(roid(n.path))
		if el != want || p != wantParent {
			err = fmt.Errorf("looking up %v finds another element or parent", n.path)
		}
	})
	return err
}

// lookupAbsent looks up a path that leads nowhere.
func (root *mnode) lookupAbsent(tree *embertree.RootElement, path []int32) error {
	p, el := tree.GetElementByPath(roid(path))
	if el != nil {
		return fmt.Errorf("looking up %v, which is not in the tree, finds element %v", path, el.GetPath())
	}
	if p != nil && !(len(path) > 1 && sameOID(p.GetPath(), path[:len(path)-1])) {
		return fmt.Errorf("looking up %v, which is not in the tree, finds parent %v", path, p.GetPath())
	}
	return nil
}

// ---- histories ----

// History is a sequence of messages over a universe of paths.
type History struct {
	Msgs   []HMsg
	Absent [][]int32 `json:",omitempty"`
}

// HMsg is one message.
type HMsg struct {
	Es    []*glow.Elem
	Style glow.Style
}

// universe fixes the kind of every path.
type universe struct{ kinds []string }

func genUniverse(t *rapid.T) *universe {
	return &universe{kinds: rapid.SliceOfN(rapid.SampledFrom([]string{glow.Node, glow.Node, glow.Node, glow.Param, glow.Matrix, glow.Func}), 1, 7).Draw(t, "kinds")}
}

func (u *universe) kind(path []int32) string {
	h := uint32(7)
	for _, p := range path {
		h = h*31 + uint32(p)
	}
	return u.kinds[h%uint32(len(u.kinds))]
}

var smallNums = []int32{1, 2, 3, 1, 2, 3, 1, 2, 0, 30, 32, 127, 128, 257, 65537, 70000, 16777217}

func genNum(t *rapid.T) int32 { return rapid.SampledFrom(smallNums).Draw(t, "hnum") }

type histOpts struct {
	dups bool // one message may mention an element more than once
}

func genHElem(t *rapid.T, u *universe, path []int32, depth int, o *histOpts) *glow.Elem {
	e := &glow.Elem{Kind: u.kind(path), Num: path[len(path)-1]}
	if rapid.IntRange(0, 2).Draw(t, "hasContents") > 0 {
		e.C = genContents(t, e.Kind, false)
	}
	if e.Kind == glow.Matrix && rapid.Bool().Draw(t, "hasLists") {
		e.Lists = rapid.IntRange(0, 7).Draw(t, "lists")
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "targets"); i < n; i++ {
			e.Targets = append(e.Targets, int32(rapid.IntRange(0, 5).Draw(t, "target")))
		}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "sources"); i < n; i++ {
			e.Sources = append(e.Sources, int32(rapid.IntRange(0, 5).Draw(t, "source")))
		}
		used := map[int32]bool{}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "conns"); i < n; i++ {
			c := genConn(t)
			c.Target = int32(rapid.IntRange(0, 4).Draw(t, "ctarget"))
			if !used[c.Target] {
				used[c.Target] = true
				e.Conns = append(e.Conns, c)
			}
		}
	}
	if depth > 0 && rapid.IntRange(0, 79).Draw(t, "hugeBranch") == 0 {
		e.Kids = genBranch(t, u, path)
	} else if depth > 0 {
		used := map[int32]bool{}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "kids"); i < n; i++ {
			num := genNum(t)
			if used[num] && !o.dups {
				continue
			}
			used[num] = true
			e.Kids = append(e.Kids, genHElem(t, u, append(append([]int32{}, path...), num), depth-1, o))
		}
	}
	return e
}

// genBranch draws a long chain of descendants or many children.
func genBranch(t *rapid.T, u *universe, path []int32) []*glow.Elem {
	child := func(path []int32, num int32) (*glow.Elem, []int32) {
		path = append(append([]int32{}, path...), num)
		k := &glow.Elem{Kind: u.kind(path), Num: num}
		if rapid.IntRange(0, 9).Draw(t, "hasContents") == 0 {
			k.C = genContents(t, k.Kind, false)
		}
		return k, path
	}
	if rapid.Bool().Draw(t, "deep") {
		var top, k *glow.Elem
		for i, n := 0, rapid.IntRange(5, 40).Draw(t, "levels"); i < n; i++ {
			last := k
			k, path = child(path, genNum(t))
			if last == nil {
				top = k
			} else {
				last.Kids = append(last.Kids, k)
			}
		}
		return []*glow.Elem{top}
	}
	var kids []*glow.Elem
	for i, n := 0, rapid.IntRange(10, 300).Draw(t, "many"); i < n; i++ {
		k, _ := child(path, int32(i))
		kids = append(kids, k)
	}
	return kids
}

func genHMsg(t *rapid.T, u *universe, known [][]int32, o *histOpts) HMsg {
	var m HMsg
	used := map[string]bool{}
	n := rapid.IntRange(0, 4).Draw(t, "entries")
	for i := 0; i < n; i++ {
		var e *glow.Elem
		switch rapid.IntRange(0, 3).Draw(t, "entry") {
		case 0, 1: // a branch from the root
			e = genHElem(t, u, []int32{genNum(t)}, rapid.IntRange(0, 3).Draw(t, "depth"), o)
		default: // qualified, mostly at or next to something announced before
			var path []int32
			if len(known) > 0 && rapid.IntRange(0, 7).Draw(t, "near") > 0 {
				path = append([]int32{}, rapid.SampledFrom(known).Draw(t, "known")...)
			}
			for k := rapid.IntRange(0, 2).Draw(t, "more"); k > 0 || len(path) == 0; k-- {
				path = append(path, genNum(t))
			}
			e = genHElem(t, u, path, rapid.IntRange(0, 1).Draw(t, "qdepth"), o)
			e.Qual, e.Path = true, path
		}
		if !o.dups {
			clash := false
			base := e.Path
			if !e.Qual {
				base = []int32{e.Num}
			}
			mentionWalk(e, base, func(p []int32) { clash = clash || used[pathKey(p)] })
			if clash {
				continue
			}
			mentionWalk(e, base, func(p []int32) { used[pathKey(p)] = true })
		}
		m.Es = append(m.Es, e)
	}
	m.Style = genStyle(t)
	return m
}

// mentionWalk visits the paths an announced element mentions.
func mentionWalk(e *glow.Elem, path []int32, f func([]int32)) {
	f(path)
	for _, k := range e.Kids {
		mentionWalk(k, append(append([]int32{}, path...), k.Num), f)
	}
}

func genHistory(t *rapid.T) History {
	u := genUniverse(t)
	var h History
	root := newM("", nil, 0)
	o := &histOpts{dups: rapid.Bool().Draw(t, "dups")}
	n := rapid.IntRange(1, 7).Draw(t, "msgs")
	if rapid.IntRange(0, 250).Draw(t, "longHistory") == 77 {
		n = rapid.IntRange(8, 60).Draw(t, "manyMsgs")
	}
	for i := 0; i < n; i++ {
		m := genHMsg(t, u, root.paths(), o)
		h.Msgs = append(h.Msgs, m)
		root.announce(m.Es, nil)
	}
	for i := 0; i < 4; i++ {
		p := append([]int32{}, rapid.SampledFrom(append(root.paths(), []int32{})).Draw(t, "absBase")...)
		for k := rapid.IntRange(1, 3).Draw(t, "absMore"); k > 0; k-- {
			p = append(p, genNum(t))
		}
		if root.find(p) == nil {
			h.Absent = append(h.Absent, p)
		}
	}
	return h
}

func (root *mnode) paths() [][]int32 {
	var out [][]int32
	root.walk(func(n *mnode) {
		if n.parent != nil {
			out = append(out, n.path)
		}
	})
	return out
}

func decodeMsg(tree *embertree.RootElement, m HMsg) error {
	b := m.Style.Root(m.Es)
	r, overwrite := borrowed(b)
	defer overwrite()
	if e := tree.Decode(r); e != nil {
		return fmt.Errorf("decoding %s: %s", hexs(b), emsg(e))
	}
	if r.Len() != 0 {
		return fmt.Errorf("%d bytes left of %s", r.Len(), hexs(b))
	}
	return nil
}

func mergeHistory(h History, o *engine.Obs) error {
	o.Label("%d messages", len(h.Msgs))
	tree := embertree.NewTree()
	root := newM("", nil, 0)
	upd := 0
	for i, m := range h.Msgs {
		before := len(root.paths())
		nmention := 0
		for _, e := range m.Es {
			mentionWalk(e, []int32{e.Number()}, func([]int32) { nmention++ })
			if e.Qual && len(e.Path) > 1 && root.find(e.Path[:len(e.Path)-1]) == nil {
				o.Label("orphan")
			}
		}
		if err := decodeMsg(tree, m); err != nil {
			return fmt.Errorf("message %d: %w", i, err)
		}
		root.announce(m.Es, nil)
		if nmention > len(root.paths())-before {
			upd++
		}
		if err := root.checkRoot(tree); err != nil {
			return fmt.Errorf("after message %d: %w", i, err)
		}
	}
	if upd < 1 || len(root.paths()) < 2 {
		o.Trivial()
	}
	o.Label("%s elements", map[bool]string{true: "10+", false: "<10"}[len(root.paths()) >= 10])
	if err := root.checkLookup(tree); err != nil {
		return err
	}
	if err := root.passOn(tree); err != nil {
		return err
	}
	for _, p := range h.Absent {
		if err := root.lookupAbsent(tree, p); err != nil {
			return err
		}
	}
	return nil
}

// passOn encodes a merged tree, as for a consumer of its own, and compares what
// that makes of it.
func (root *mnode) passOn(tree *embertree.RootElement) error {
	b, err := encodeRoot(tree)
	if err != nil {
		return fmt.Errorf("encoding the tree: %w", err)
	}
	if _, err := glow.ParseRoot(b); err != nil {
		return fmt.Errorf("the tree is encoded as %s: %w", hexs(b), err)
	}
	fresh := embertree.NewTree()
	r, overwrite := borrowed(b)
	if e := fresh.Decode(r); e != nil {
		return fmt.Errorf("decoding the tree's encoding %s: %s", hexs(b), emsg(e))
	}
	overwrite()
	want := newM("", nil, 0)
	for num, k := range root.kids {
		want.kids[num] = k.carried(want, true)
	}
	if err := want.checkRoot(fresh); err != nil {
		return fmt.Errorf("the tree passed on as %s: %w", hexs(b), err)
	}
	// nothing has changed
	return root.checkRoot(tree)
}

// carried is what the encoding of an element carries of it and below.
func (n *mnode) carried(parent *mnode, top bool) *mnode {
	c := *n
	c.parent, c.kids = parent, map[int32]*mnode{}
	if top || n.c == nil {
		for num, k := range n.kids {
			c.kids[num] = k.carried(&c, false)
		}
	}
	return &c
}

// ---- C12 ----

// PathProgram builds a tree by hand, by messages or both, and asks for paths on the way.
type PathProgram struct {
	Ops []PathOp
}

// PathOp is one step.
type PathOp struct {
	Op   string // new, attach, ask, askAll, scribble, top, msg, lookup
	A, B int
	Kind string     `json:",omitempty"`
	Num  int32      `json:",omitempty"`
	Es   []HMsg     `json:",omitempty"`
	Path []int32    `json:",omitempty"`
	Qual bool       `json:",omitempty"`
	_    struct{}   `json:"-"`
	Base *glow.Elem `json:",omitempty"`
}

func genPathProgram(t *rapid.T) PathProgram {
	var p PathProgram
	u := genUniverse(t)
	n := rapid.IntRange(3, 40).Draw(t, "ops")
	if rapid.IntRange(0, 250).Draw(t, "longProgram") == 77 {
		n = rapid.IntRange(41, 250).Draw(t, "manyOps")
	}
	made := 0
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"new", "new", "attach", "attach", "attach", "ask", "ask", "askAll", "scribble", "top", "msg", "lookup", "chain"}).Draw(t, "op")
		op := PathOp{Op: k, A: rapid.IntRange(0, 200).Draw(t, "a"), B: rapid.IntRange(0, 200).Draw(t, "b")}
		switch k {
		case "new":
			op.Kind = rapid.SampledFrom([]string{glow.Node, glow.Node, glow.Param, glow.Matrix, glow.Func}).Draw(t, "kind")
			op.Num = genNum(t)
			made++
		case "chain":
			op.Num, op.B = genNum(t), rapid.IntRange(1, 4).Draw(t, "levels")
			if rapid.IntRange(0, 7).Draw(t, "deep") == 0 {
				op.B = rapid.IntRange(5, 60).Draw(t, "manyLevels")
			}
		case "msg":
			op.Es = []HMsg{genHMsg(t, u, nil, &histOpts{})}
		case "lookup":
			op.Path = rapid.SliceOfN(rapid.SampledFrom(smallNums), 0, 5).Draw(t, "path")
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

// hand is one hand-made element and what the model knows of it.
type hand struct {
	el     *embertree.Element
	num    int32
	parent *hand
	kids   map[int32]*hand
	top    bool
}

func (h *hand) path() []int32 {
	if h.parent == nil {
		return []int32{h.num}
	}
	return append(h.parent.path(), h.num)
}

func (h *hand) root() *hand {
	for h.parent != nil {
		h = h.parent
	}
	return h
}

func runPaths(p PathProgram, o *engine.Obs) error {
	tree := embertree.NewTree()
	var all []*hand
	tops := map[int32]*hand{}
	var given [][]int32 // paths as the library returned them, and copies of them
	var copies [][]int32
	asks, deep := 0, 0
	ask := func(h *hand) error {
		g := h.el.GetPath()
		if w := h.path(); !sameOID(g, w) {
			return fmt.Errorf("path of element %d is %v, want %v", h.num, g, w)
		}
		asks++
		if len(g) > 2 {
			deep++
		}
		given, copies = append(given, g), append(copies, append([]int32{}, g...))
		return nil
	}
	verify := func() error {
		for i := range given {
			if !sameOID(given[i], copies[i]) {
				return fmt.Errorf("a path handed out as %v reads %v later", copies[i], given[i])
			}
		}
		return nil
	}
	var adopt func(h *hand, el *embertree.Element) *hand
	adopt = func(h *hand, el *embertree.Element) *hand {
		x := &hand{el: el, num: int32(el.Number), parent: h, kids: map[int32]*hand{}}
		all = append(all, x)
		if h != nil {
			h.kids[x.num] = x
		}
		nums := []int{}
		for k := range el.Children {
			nums = append(nums, k)
		}
		sort.Ints(nums)
		for _, k := range nums {
			adopt(x, el.Children[k])
		}
		return x
	}
	for i, op := range p.Ops {
		var err error
		switch op.Op {
		case "new":
			var el *embertree.Element
			if el, err = build(&glow.Elem{Kind: op.Kind, Num: op.Num}); err == nil {
				all = append(all, &hand{el: el, num: op.Num, kids: map[int32]*hand{}})
			}
		case "attach":
			if len(all) > 0 {
				a, b := all[op.A%len(all)], all[op.B%len(all)]
				// a becomes a child of b, once, without a loop, in a free place
				if a.parent == nil && !a.top && b.root() != a && b.kids[a.num] == nil {
					if e := b.el.AddChild(a.el); e != nil {
						err = fmt.Errorf("AddChild: %s", emsg(e))
					}
					a.parent = b
					b.kids[a.num] = a
				}
			}
		case "chain":
			// new elements below an element, one below the other
			for k := 0; k < op.B && err == nil && len(all) > 0; k++ {
				at := all[len(all)-1]
				if k == 0 {
					at = all[op.A%len(all)]
				}
				if at.kids[op.Num] != nil {
					break
				}
				var el *embertree.Element
				if el, err = build(&glow.Elem{Kind: glow.Node, Num: op.Num}); err == nil {
					x := &hand{el: el, num: op.Num, parent: at, kids: map[int32]*hand{}}
					at.el.AddChild(el)
					at.kids[op.Num] = x
					all = append(all, x)
				}
			}
		case "top":
			if len(all) > 0 {
				a := all[op.A%len(all)]
				if a.parent == nil && !a.top && tops[a.num] == nil {
					tree.AddElement(a.el)
					a.top = true
					tops[a.num] = a
				}
			}
		case "ask":
			if len(all) > 0 {
				err = ask(all[op.A%len(all)])
			}
		case "askAll":
			for _, h := range all {
				if err == nil {
					err = ask(h)
				}
			}
		case "scribble":
			// what a caller does with a path it was given must not reach the tree
			if len(all) > 0 {
				g := all[op.A%len(all)].el.GetPath()
				_ = append(g, 99)
				for k := range g {
					g[k] = 77
				}
			}
		case "msg":
			// only for numbers not used by hand-made elements at the top
			other := embertree.NewTree()
			if err = decodeMsg(other, op.Es[0]); err == nil {
				nums := []int{}
				for k := range other.RootElementCollection {
					nums = append(nums, k)
				}
				sort.Ints(nums)
				for _, k := range nums {
					if tops[int32(k)] == nil {
						el := other.RootElementCollection[k]
						tree.AddElement(el)
						x := adopt(nil, el)
						x.top = true
						tops[int32(k)] = x
					}
				}
			}
		case "lookup":
			err = lookupHand(tree, tops, op.Path)
		}
		if err == nil {
			err = verify()
		}
		if err != nil {
			return fmt.Errorf("step %d (%s): %w", i, op.Op, err)
		}
	}
	for _, h := range all {
		if err := ask(h); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
		if h.root().top {
			if err := lookupHand(tree, tops, h.path()); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
			if err := lookupHand(tree, tops, append(h.path(), 1)); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
			if err := lookupHand(tree, tops, append(h.path(), 2, 1)); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
		}
	}
	if err := verify(); err != nil {
		return err
	}
	if deep == 0 || asks < 3 {
		o.Trivial()
	}
	if deep > 0 {
		o.Label("paths of 3+ numbers")
	}
	return nil
}

func lookupHand(tree *embertree.RootElement, tops map[int32]*hand, path []int32) error {
	p, el := tree.GetElementByPath(roid(path))
	var h, hp *hand
	if len(path) > 0 {
		h = tops[path[0]]
		for _, k := range path[1:] {
			hp = h
			if h == nil {
				break
			}
			h = h.kids[k]
		}
	}
	if h != nil {
		if el != h.el {
			return fmt.Errorf("looking up %v does not find its element", path)
		}
		if (hp == nil) != (p == nil) || (hp != nil && p != hp.el) {
			return fmt.Errorf("looking up %v does not find its parent", path)
		}
		return nil
	}
	if el != nil {
		return fmt.Errorf("looking up %v, which is not in the tree, finds %v", path, el.GetPath())
	}
	if p != nil && (hp == nil || p != hp.el) {
		return fmt.Errorf("looking up %v, which is not in the tree, finds parent %v", path, p.GetPath())
	}
	return nil
}

// ---- C13 ----

// ListenCase is a history of messages and listener operations.
type ListenCase struct {
	Ops []ListenOp
}

// ListenOp adds or removes listener L at Path (empty for the root), or decodes Msg.
type ListenOp struct {
	Op   string // add, remove, msg; update, contents: changes made by the program itself
	L    int
	Path []int32 `json:",omitempty"`
	Once bool    `json:",omitempty"`
	More int     `json:",omitempty"` // so many listeners after L too
	Msg  *HMsg   `json:",omitempty"`

	E *glow.Elem `json:",omitempty"`
}

func genListen(t *rapid.T) ListenCase {
	u := genUniverse(t)
	var c ListenCase
	root := newM("", nil, 0)
	o := &histOpts{dups: rapid.IntRange(0, 3).Draw(t, "dups") == 0}
	msgs := 0
	n := rapid.IntRange(3, 25).Draw(t, "ops")
	if rapid.IntRange(0, 250).Draw(t, "longHistory") == 77 {
		n = rapid.IntRange(26, 100).Draw(t, "manyOps")
	}
	for i := 0; i < n; i++ {
		switch k := rapid.IntRange(0, 9).Draw(t, "op"); {
		case k < 4 || msgs == 0:
			m := genHMsg(t, u, root.paths(), o)
			root.announce(m.Es, nil)
			c.Ops = append(c.Ops, ListenOp{Op: "msg", Msg: &m})
			msgs++
		case k == 9 && len(root.paths()) > 0 && rapid.Bool().Draw(t, "direct"):
			path := rapid.SampledFrom(root.paths()).Draw(t, "at")
			op := ListenOp{Op: "update", Path: path}
			if rapid.Bool().Draw(t, "contents") {
				op.Op = "contents"
				op.E = &glow.Elem{Kind: u.kind(path), Num: path[len(path)-1], C: genContents(t, u.kind(path), false)}
				root.find(path).c = op.E.C
			} else {
				op.E = genHElem(t, u, path, rapid.IntRange(0, 2).Draw(t, "depth"), &histOpts{})
				root.find(path).parent.merge(op.E, nil, false)
			}
			c.Ops = append(c.Ops, op)
		default:
			op := ListenOp{Op: "add", L: rapid.IntRange(0, 3).Draw(t, "listener"), Once: rapid.IntRange(0, 3).Draw(t, "once") == 0}
			if k >= 8 {
				op.Op = "remove"
			}
			if rapid.IntRange(0, 14).Draw(t, "crowd") == 0 {
				op.More = rapid.IntRange(1, crowd).Draw(t, "more")
			}
			if rapid.IntRange(0, 4).Draw(t, "atRoot") > 0 {
				op.Path = rapid.SampledFrom(append(root.paths(), nil)).Draw(t, "at")
			}
			c.Ops = append(c.Ops, op)
		}
	}
	return c
}

type call struct {
	el   *embertree.Element
	size sizes
	cont embertree.EmberContents
}

// sizes says how much there is to an element.
type sizes struct{ Children, Below, Targets, Sources, Connections int }

func sizesOf(el *embertree.Element) sizes {
	var s sizes
	var count func(el *embertree.Element)
	count = func(el *embertree.Element) {
		for _, k := range el.Children {
			s.Below++
			count(k)
		}
	}
	count(el)
	s.Children = len(el.Children)
	t, _ := el.GetTargets()
	u, _ := el.GetSources()
	c, _ := el.GetConnections()
	s.Targets, s.Sources, s.Connections = len(t), len(u), len(c)
	return s
}

// ear is a listener placed somewhere; the same ear may sit at several places.
type ear struct {
	id      int
	byPath  map[string][]call
	roots   int
	bad     string
	once    map[string]bool
	remove  func(key string)
	onRoot  func()
	removed map[string]bool
}

func (l *ear) Receive(x interface{}, e errors.Error) {
	if e != nil {
		l.bad = fmt.Sprintf("called with error %s", emsg(e))
		return
	}
	switch v := x.(type) {
	case *embertree.Element:
		k := pathKey(v.GetPath())
		l.byPath[k] = append(l.byPath[k], call{v, sizesOf(v), v.GetContent()})
		if l.once[k] {
			delete(l.once, k)
			v.RemoveListener(l)
			l.removed[k] = true
		}
	case *embertree.RootElement:
		l.roots++
		if l.once[""] {
			delete(l.once, "")
			v.RemoveListener(l)
			l.removed[""] = true
		}
	default:
		l.bad = fmt.Sprintf("called with a %T", x)
	}
}

// direct changes an element of the tree the way a program does, and the model too.
func direct(tree *embertree.RootElement, root *mnode, op ListenOp, h hits) error {
	_, el := tree.GetElementByPath(roid(op.Path))
	if el == nil {
		return fmt.Errorf("%v is not in the tree", op.Path)
	}
	n := root.find(op.Path)
	b := glow.Style{}.Elem(op.E)
	other, e := embertree.DecodeElement(asn1.NewASNReader(b))
	if e != nil {
		return fmt.Errorf("decoding %s: %s", hexs(b), emsg(e))
	}
	if op.Op == "contents" {
		n.c = op.E.C
		h[pathKey(n.path)]++
		if e := el.SetContents(other.GetContent()); e != nil {
			return fmt.Errorf("SetContents: %s", emsg(e))
		}
		return nil
	}
	// first with an element that is another one
	other.Number++
	if e := el.Update(other); e == nil {
		return fmt.Errorf("element %d is updated with element %d", el.Number, other.Number)
	}
	if err := root.checkRoot(tree); err != nil {
		return fmt.Errorf("after an update refused: %w", err)
	}
	other.Number--
	n.parent.merge(op.E, h, false)
	if e := el.Update(other); e != nil {
		return fmt.Errorf("Update: %s", emsg(e))
	}
	return nil
}

// judgeEars compares what listeners heard with what changed: least and h say
// how often each may have been called, atRoot how often those at the root; one
// that all of it was one change.
func judgeEars(tree *embertree.RootElement, ears []*ear, placed []map[string]bool, existed map[string]bool, h, least hits, atRoot int, one bool) (heard int, err error) {
	for id, l := range ears {
		if l.bad != "" {
			return heard, fmt.Errorf("listener %d: %s", id, l.bad)
		}
		for k, calls := range l.byPath {
			if !placed[id][k] {
				return heard, fmt.Errorf("listener %d is called for %s, where it does not listen", id, k)
			}
			if h[k] == 0 {
				return heard, fmt.Errorf("listener %d on %s is called though the message does not touch it", id, k)
			}
			if len(calls) > h[k] {
				return heard, fmt.Errorf("listener %d on %s is called %d times for %d updates", id, k, len(calls), h[k])
			}
		}
		for k := range placed[id] {
			if k == "" {
				if l.roots != atRoot && !(l.removed[""] && l.roots == 1) {
					return heard, fmt.Errorf("root listener %d is called %d times", id, l.roots)
				}
				heard += atRoot
				continue
			}
			if !existed[k] {
				return heard, fmt.Errorf("harness: listener on unknown %s", k)
			}
			calls := l.byPath[k]
			if len(calls) == 0 && least[k] > 0 {
				return heard, fmt.Errorf("listener %d on %s is not called though the message touches it", id, k)
			}
			if h[k] == 0 || len(calls) == 0 {
				continue
			}
			heard++
			for i, c := range calls {
				_, el := tree.GetElementByPath(c.el.GetPath())
				if el != c.el {
					return heard, fmt.Errorf("listener %d on %s is called with an element that is not in the tree", id, k)
				}
				// of several messages the last call has heard
				if !one && (i < len(calls)-1 || l.removed[k]) {
					continue
				}
				s := sizesOf(el)
				if !one { // a later one may have reached further down
					s.Below, c.size.Below = 0, 0
				}
				if c.size != s || c.cont != el.GetContent() {
					return heard, fmt.Errorf("call %d of listener %d on %s is with %+v, the message leaves %+v (contents same: %v)", i, id, k, c.size, s, c.cont == el.GetContent())
				}
			}
		}
		if !placed[id][""] && l.roots > 0 {
			return heard, fmt.Errorf("listener %d, not on the root, is called for the root", id)
		}
		for k := range l.removed {
			if n := len(l.byPath[k]); k != "" && n != 1 {
				return heard, fmt.Errorf("listener %d on %s removed itself in its first call and is called %d times", id, k, n)
			}
			delete(placed[id], k)
		}
	}
	return heard, nil
}

// once says that each was touched, by one message.
func (h hits) once() hits {
	out := hits{}
	for k := range h {
		out[k] = 1
	}
	return out
}

// placeEar adds or removes a listener.
func placeEar(tree *embertree.RootElement, ears []*ear, placed []map[string]bool, op ListenOp) error {
	l := ears[op.L]
	key := ""
	var el *embertree.Element
	if op.Path != nil {
		key = pathKey(op.Path)
		if _, el = tree.GetElementByPath(roid(op.Path)); el == nil {
			return fmt.Errorf("%v is not in the tree", op.Path)
		}
	}
	if op.Op == "add" {
		if el != nil {
			el.AddListener(l)
		} else {
			tree.AddListener(l)
		}
		placed[op.L][key] = true
		l.once[key] = op.Once
		if !op.Once {
			delete(l.once, key)
		}
	} else {
		if el != nil {
			el.RemoveListener(l)
		} else {
			tree.RemoveListener(l)
		}
		delete(placed[op.L], key)
		delete(l.once, key)
	}
	if el == nil && tree.HasListner(l) != placed[op.L][""] {
		return fmt.Errorf("HasListner says %v", tree.HasListner(l))
	}
	return nil
}

// crowd is how many listeners come together at most.
const crowd = 70

// placeEars adds or removes one listener or several.
func placeEars(tree *embertree.RootElement, ears []*ear, placed []map[string]bool, op ListenOp) error {
	for last := min(op.L+op.More, len(ears)-1); op.L <= last; op.L++ {
		if err := placeEar(tree, ears, placed, op); err != nil {
			return err
		}
	}
	return nil
}

func newEars(n int) (ears []*ear, placed []map[string]bool) {
	for i := 0; i < n; i++ {
		ears = append(ears, &ear{id: i, byPath: map[string][]call{}, once: map[string]bool{}, removed: map[string]bool{}})
		placed = append(placed, map[string]bool{})
	}
	return ears, placed
}

func runListen(c ListenCase, o *engine.Obs) error {
	tree := embertree.NewTree()
	root := newM("", nil, 0)
	ears, placed := newEars(4 + crowd)
	heard := 0
	for i, op := range c.Ops {
		switch op.Op {
		case "add", "remove":
			if err := placeEars(tree, ears, placed, op); err != nil {
				return fmt.Errorf("step %d (%s): %w", i, op.Op, err)
			}
			if op.More > 0 {
				o.Label("many listeners at once")
			}
		case "msg", "update", "contents":
			for _, l := range ears {
				l.byPath, l.roots, l.removed = map[string][]call{}, 0, map[string]bool{}
			}
			existed := map[string]bool{}
			for _, p := range root.paths() {
				existed[pathKey(p)] = true
			}
			h := hits{}
			atRoot := 0
			var err error
			if op.Op == "msg" {
				atRoot = 1
				root.announce(op.Msg.Es, h)
				err = decodeMsg(tree, *op.Msg)
			} else {
				err = direct(tree, root, op, h)
			}
			if err == nil && op.Op != "msg" {
				err = root.checkRoot(tree)
			}
			if err != nil {
				return fmt.Errorf("step %d (%s): %w", i, op.Op, err)
			}
			n, err := judgeEars(tree, ears, placed, existed, h, h.once(), atRoot, true)
			if err != nil {
				return fmt.Errorf("step %d (%s): %w", i, op.Op, err)
			}
			heard += n
		}
	}
	if heard == 0 {
		o.Trivial()
	}
	o.Label("calls expected %d", min(heard, 10))
	return nil
}

// ---- C14 ----

// DirCase is a tree to make requests for.
type DirCase struct {
	Msgs []HMsg
	// Hand builds the elements by the constructors instead of decoding them.
	Hand []*glow.Elem
}

func genDir(t *rapid.T) DirCase {
	if rapid.IntRange(0, 2).Draw(t, "byHand") == 0 {
		es := genTop(t, (&treeOpts{settable: true, depth: 4, budget: 20, bare: true, noCmd: true}).shape(t))
		for _, e := range es {
			if e.Qual {
				e.Path = e.Path[len(e.Path)-1:]
			}
		}
		return DirCase{Hand: es}
	}
	return DirCase{Msgs: genHistory(t).Msgs}
}

// request follows a request message down to its command.
func request(b []byte) (path []int32, kind string, qual bool, err error) {
	es, err := glow.ParseRoot(b)
	if err != nil {
		return nil, "", false, err
	}
	if len(es) != 1 {
		return nil, "", false, fmt.Errorf("%d elements in the request", len(es))
	}
	e := es[0]
	for {
		if e.Kind == glow.Cmd {
			if e.Num != 32 {
				return nil, "", false, fmt.Errorf("command %d", e.Num)
			}
			if e.C == nil || e.C.Flags != -1 {
				return nil, "", false, fmt.Errorf("command asks for %+v, not all fields", e.C)
			}
			if len(e.Kids) > 0 {
				return nil, "", false, fmt.Errorf("command with children")
			}
			return path, kind, qual, nil
		}
		if e.C != nil || len(e.Targets)+len(e.Sources)+len(e.Conns) > 0 {
			return nil, "", false, fmt.Errorf("request carries contents for %s %v", e.Kind, append(path, e.Number()))
		}
		if e.Qual {
			path, qual = append([]int32{}, e.Path...), true
		} else {
			path = append(path, e.Num)
		}
		kind = e.Kind
		if len(e.Kids) != 1 {
			return nil, "", false, fmt.Errorf("%d children under %v", len(e.Kids), path)
		}
		e = e.Kids[0]
	}
}

func shape(tree *embertree.RootElement) (string, error) {
	var sb []string
	var visit func(path string, el *embertree.Element) error
	visit = func(path string, el *embertree.Element) error {
		b, err := encodeElem(el)
		if err != nil {
			return err
		}
		e, err := glow.ParseElem(b)
		if err != nil {
			return err
		}
		e.Kids = nil
		p, _ := el.GetParent()
		sb = append(sb, fmt.Sprintf("%s parent %p %v %p\n%s", path, p, el.GetPath(), el, e.Text()))
		for n, k := range el.Children {
			if err := visit(fmt.Sprintf("%s.%d", path, n), k); err != nil {
				return err
			}
		}
		return nil
	}
	for n, el := range tree.RootElementCollection {
		if err := visit(fmt.Sprint(n), el); err != nil {
			return "", err
		}
	}
	sort.Strings(sb)
	return fmt.Sprint(sb), nil
}

// tamper alters a message that was made, every part of it.
func tamper(root *embertree.RootElement) {
	var visit func(el *embertree.Element)
	visit = func(el *embertree.Element) {
		if c, ok := el.GetContent().(*embertree.CommandContents); ok {
			c.SetFieldFlags(embertree.ValueFieldFlags)
			el.Number = embertree.COMMAND_SUBSCRIBE
		}
		for _, k := range el.Children {
			visit(k)
		}
		el.AddChild(embertree.NewNode(7))
	}
	for _, el := range root.RootElementCollection {
		visit(el)
	}
	root.AddElement(embertree.NewNode(3))
}

type counter struct{ n, roots int }

func (c *counter) Receive(x interface{}, e errors.Error) {
	if _, ok := x.(*embertree.RootElement); ok {
		c.roots++
	} else {
		c.n++
	}
}

func directories(c DirCase, o *engine.Obs) error {
	tree := embertree.NewTree()
	if c.Hand != nil {
		var err error
		if tree, err = buildRoot(c.Hand); err != nil {
			return err
		}
		o.Label("built by hand")
	} else {
		for i, m := range c.Msgs {
			if err := decodeMsg(tree, m); err != nil {
				return fmt.Errorf("message %d: %w", i, err)
			}
		}
		o.Label("decoded")
	}
	before, err := shape(tree)
	if err != nil {
		return err
	}
	count := 0
	var visit func(path []int32, el *embertree.Element) error
	visit = func(path []int32, el *embertree.Element) error {
		count++
		kind := kindOfElement(el)
		l1, l2 := &counter{}, &counter{}
		one := func(what string, root *embertree.RootElement, mustQual bool) error {
			if root == nil {
				return fmt.Errorf("%s for %v gives nothing", what, path)
			}
			b, err := encodeRoot(root)
			if err != nil {
				return fmt.Errorf("%s for %v: %w", what, path, err)
			}
			p, k, q, err := request(b)
			if err != nil {
				return fmt.Errorf("%s for %v: %w: %s", what, path, err, hexs(b))
			}
			if !sameOID(p, path) || k != kind {
				return fmt.Errorf("%s for %s %v asks for %s %v: %s", what, kind, path, k, p, hexs(b))
			}
			if mustQual && !q {
				return fmt.Errorf("%s for %v is not qualified", what, path)
			}
			return nil
		}
		root, e := el.GetDirectoryMsg(l1)
		if e != nil {
			return fmt.Errorf("GetDirectoryMsg for %v: %s", path, emsg(e))
		}
		if err := one("GetDirectoryMsg", root, false); err != nil {
			return err
		}
		if err := one("GetQualifiedDirectoryMsg", el.GetQualifiedDirectoryMsg(l2), true); err != nil {
			return err
		}
		again, e := el.GetDirectoryMsg(nil)
		if e != nil {
			return fmt.Errorf("second GetDirectoryMsg for %v: %s", path, emsg(e))
		}
		if err := one("second GetDirectoryMsg", again, false); err != nil {
			return err
		}
		if err := one("first GetDirectoryMsg, encoded again", root, false); err != nil {
			return err
		}
		// what becomes of a request once it is made is no business of others
		tamper(root)
		tamper(again)
		embertree.NewCommand(embertree.COMMAND_GETDIRECTORY).GetContent().(*embertree.CommandContents).SetFieldFlags(embertree.IdentifierFieldFlags)
		if root, e = el.GetDirectoryMsg(nil); e != nil {
			return fmt.Errorf("third GetDirectoryMsg for %v: %s", path, emsg(e))
		}
		if err := one("GetDirectoryMsg after altering earlier requests", root, false); err != nil {
			return err
		}
		q := el.GetQualifiedDirectoryMsg(nil)
		tamper(q)
		if err := one("GetQualifiedDirectoryMsg after altering earlier requests", el.GetQualifiedDirectoryMsg(nil), true); err != nil {
			return err
		}
		// the listeners now hear of the element, once each
		c := el.GetContent()
		if c == nil {
			c = newContents(kind)
			el.SetContents(c)
			if l1.n != 1 || l2.n != 1 {
				return fmt.Errorf("listeners of the requests for %v are called %d and %d times by an update", path, l1.n, l2.n)
			}
			el.RemoveListener(l1)
			el.RemoveListener(l2)
			return nil
		}
		el.SetContents(c)
		if l1.n != 1 || l2.n != 1 {
			return fmt.Errorf("listeners of the requests for %v are called %d and %d times by an update", path, l1.n, l2.n)
		}
		el.RemoveListener(l1)
		el.RemoveListener(l2)
		return nil
	}
	var all func(path []int32, el *embertree.Element) error
	all = func(path []int32, el *embertree.Element) error {
		if el.GetContent() != nil {
			if err := visit(path, el); err != nil {
				return err
			}
		} else {
			// look only: setting contents would change what is compared below
			r, e := el.GetDirectoryMsg(nil)
			if e != nil {
				return fmt.Errorf("GetDirectoryMsg for %v: %s", path, emsg(e))
			}
			for _, root := range []*embertree.RootElement{r, el.GetQualifiedDirectoryMsg(nil)} {
				b, err := encodeRoot(root)
				if err != nil {
					return err
				}
				p, k, _, err := request(b)
				if err != nil {
					return fmt.Errorf("request for %v: %w: %s", path, err, hexs(b))
				}
				if !sameOID(p, path) || k != kindOfElement(el) {
					return fmt.Errorf("request for %s %v asks for %s %v", kindOfElement(el), path, k, p)
				}
			}
			count++
		}
		for n, k := range el.Children {
			if err := all(append(append([]int32{}, path...), int32(n)), k); err != nil {
				return err
			}
		}
		return nil
	}
	for n, el := range tree.RootElementCollection {
		if err := all([]int32{int32(n)}, el); err != nil {
			return err
		}
	}
	for _, r := range []*embertree.RootElement{tree, embertree.NewRoot()} {
		l := &counter{}
		msg, e := r.GetDirectoryMsg(l)
		if e != nil {
			return fmt.Errorf("root GetDirectoryMsg: %s", emsg(e))
		}
		b, err := encodeRoot(msg)
		if err != nil {
			return err
		}
		p, _, _, err := request(b)
		if err != nil {
			return fmt.Errorf("root request: %w: %s", err, hexs(b))
		}
		if len(p) != 0 {
			return fmt.Errorf("root request asks for %v", p)
		}
		if !r.HasListner(l) {
			return fmt.Errorf("root request does not register its listener")
		}
		r.RemoveListener(l)
		if _, e := r.GetDirectoryMsg(nil); e != nil {
			return fmt.Errorf("root GetDirectoryMsg without listener: %s", emsg(e))
		}
	}
	after, err := shape(tree)
	if err != nil {
		return err
	}
	if before != after {
		return fmt.Errorf("asking changed the tree from %.300s to %.300s", before, after)
	}
	// and it still takes updates, with no listener left behind that cannot be called
	if e := tree.Decode(asn1.NewASNReader(goodMessage)); e != nil {
		return fmt.Errorf("the tree rejects a message afterwards: %s", emsg(e))
	}
	if count < 2 {
		o.Trivial()
	}
	return nil
}

func init() {
	register(&engine.Property{
		ID: "C11", Title: "The tree after any sequence of messages is their merge",
		Rule: "a history counts if it leaves at least two elements and at least one message mentions an element already known, and differs from every earlier one",
		Subs: []engine.Sub{engine.NewSub("histories", 6000, 150000, genHistory, mergeHistory)},
	})
	register(&engine.Property{
		ID: "C12", Title: "Every element has one exact, stable, resolvable path",
		Rule: "a program counts if it asks at least three times and a path of three or more numbers comes up; a history counts as for C11; cases are distinct",
		Subs: []engine.Sub{
			engine.NewSub("build and ask", 8000, 200000, genPathProgram, runPaths),
			engine.NewSub("histories", 2500, 60000, genHistory, mergeHistory),
		},
	})
	register(&engine.Property{
		ID: "C13", Title: "Listeners hear exactly the updates of what they watch",
		Rule: "a history counts if at least one call to a listener is due, and differs from every earlier one",
		Subs: []engine.Sub{engine.NewSub("histories with listeners", 8000, 200000, genListen, runListen)},
	})
	register(&engine.Property{
		ID: "C14", Title: "Directory requests name the right element and ask for everything",
		Rule: "a tree counts if it has at least two elements to make requests for, and differs from every earlier one",
		Subs: []engine.Sub{engine.NewSub("requests", 4000, 100000, genDir, directories)},
	})
}
