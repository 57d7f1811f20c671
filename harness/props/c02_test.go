package props

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

// The model of C02 and C03: a pool of dataframes, each of which is a grid of
// pointers to cells. Two dataframes share data exactly when their grids point
// to the same cells. A write through a dataframe goes to the cell; the reads
// of all the dataframes of the pool must then agree with the cells.

type cell struct{ v interface{} }

type mcol struct {
	kind  Kind
	cells []*cell
}

type node struct {
	id     int
	df     *dataframe.DataFrame
	n      int
	cols   map[string]*mcol
	parent *node // whose column maps it may share; nil if it has its own
	from   *node // what it was derived from, whatever they share
	dead   bool
}

type world struct {
	c     *Case
	nodes []*node
	next  int
	wrote map[*cell]bool
	at    *node // the dataframe that the current operation works on
}

// rowsKind is the kind of a hidden column that tells which backing row each row
// is, so that repeated rows are known even if there are no columns.
const rowsKind Kind = 'r'
const rowsName = "\x00rows"

func freshRows(n int) *mcol { return &mcol{rowsKind, freshCells(make([]interface{}, n))} }

func (w *world) table(nd *node) *Table {
	t := newTable(nd.n)
	for name, col := range nd.cols {
		if col.kind == rowsKind {
			continue
		}
		vals := make([]interface{}, nd.n)
		for i, cl := range col.cells {
			vals[i] = cl.v
		}
		t.set(name, col.kind, vals)
	}
	return t
}

func freshCells(vals []interface{}) []*cell {
	out := make([]*cell, len(vals))
	for i, v := range vals {
		out[i] = &cell{v}
	}
	return out
}

func (w *world) add(df *dataframe.DataFrame, n int, cols map[string]*mcol, parent *node) *node {
	nd := &node{id: w.next, df: df, n: n, cols: cols, parent: parent, from: w.at}
	w.next++
	w.nodes = append(w.nodes, nd)
	return nd
}

func (w *world) addTable(t *Table) *node {
	cols := map[string]*mcol{}
	for name, c := range t.cols {
		cols[name] = &mcol{c.kind, freshCells(c.vals)}
	}
	cols[rowsName] = freshRows(t.n)
	return w.add(build(w.c, t), t.n, cols, nil)
}

func (nd *node) names(kinds string) []string {
	t := newTable(0)
	for name, c := range nd.cols {
		t.set(name, c.kind, nil)
	}
	return t.names(kinds)
}

func (nd *node) pickRows(idx []int) map[string]*mcol {
	out := map[string]*mcol{}
	for name, col := range nd.cols {
		cells := make([]*cell, len(idx))
		for j, i := range idx {
			cells[j] = col.cells[i]
		}
		out[name] = &mcol{col.kind, cells}
	}
	return out
}

func (nd *node) copyCols(pred func(string) bool) map[string]*mcol {
	out := map[string]*mcol{}
	for name, col := range nd.cols {
		if !pred(name) {
			out[name] = &mcol{col.kind, append([]*cell(nil), col.cells...)}
			continue
		}
		// repeated rows stay one row of the detached data
		seen := map[*cell]*cell{}
		cells := make([]*cell, len(col.cells))
		for i, cl := range col.cells {
			if seen[cl] == nil {
				seen[cl] = &cell{cl.v}
			}
			cells[i] = seen[cl]
		}
		out[name] = &mcol{col.kind, cells}
	}
	return out
}

// restructured is called when the set of columns of nd changes: the views that
// were taken from it may see it or not, which is not specified.
func (w *world) restructured(nd *node) {
	for changed := true; changed; {
		changed = false
		for _, x := range w.nodes {
			if !x.dead && x.parent != nil && (x.parent == nd || x.parent.dead) {
				x.dead = true
				changed = true
			}
		}
	}
	nd.parent = nil // a view whose structure changes gets a structure of its own
	w.bury()
}

func (w *world) bury() {
	live := w.nodes[:0]
	for _, x := range w.nodes {
		if !x.dead {
			live = append(live, x)
		}
	}
	w.nodes = live
}

// detachNames chooses columns to detach, now and then with repeated or unknown
// names among them.
func (w *world) detachNames(nd *node) []string {
	c := w.c
	all := nd.names("fibso")
	names := subset(c, all)
	if len(names) > 0 && c.Chance("more names", 4) {
		names = append([]string(nil), names...)
		for len(names) < len(all) && c.Bool("one more") {
			names = append(names, pick(c, "which", "not there", names[0]))
		}
	}
	return names
}

// unshare detaches columns of nd in place. What was derived from nd may keep
// sharing them or not, which is not specified; everything else must not.
func (w *world) unshare(nd *node) string {
	names := w.detachNames(nd)
	all := len(names) == 0
	nd.df.Unshare(names...)
	for changed := true; changed; {
		changed = false
		for _, x := range w.nodes {
			if !x.dead && x.from != nil && (x.from == nd || x.from.dead) {
				x.dead = true
				changed = true
			}
		}
	}
	w.bury()
	nd.parent = nil
	nd.cols = nd.copyCols(func(s string) bool { return all || contains(names, s) })
	return fmt.Sprintf("#%d.Unshare(%q)", nd.id, names)
}

func (w *world) check(after string) {
	for _, nd := range w.nodes {
		w.c.expect(fmt.Sprintf("after %s: dataframe #%d", after, nd.id), nd.df, w.table(nd))
	}
}

// newView adds a view on nd.
func (w *world) newView(nd *node) string {
	c := w.c
	n := nd.n
	id := w.next
	op := pick(c, "view op", "slice", "index", "mask", "view", "column", "reverse", "split", "detached", "shallow", "copy", "unshared", "sorted", "concat", "sample", "train", "renamed", "unshared", "splitn")
	switch op {
	case "slice":
		a := c.Int("from", 0, n)
		b := c.Int("to", a, n)
		w.add(nd.df.SliceView(a, b), b-a, nd.pickRows(seq(a, b)), nd)
		return fmt.Sprintf("#%d = #%d.SliceView(%d,%d)", id, nd.id, a, b)
	case "index":
		idx := genIndices(c, n, true)
		if len(idx) > 60 {
			idx = idx[:60]
		}
		w.add(nd.df.IndexView(idx), len(idx), nd.pickRows(idx), nd)
		return fmt.Sprintf("#%d = #%d.IndexView(%s)", id, nd.id, showIdx(idx))
	case "mask":
		m := make([]bool, n)
		idx := []int{}
		s := c.source(n)
		for i := range m {
			if m[i] = s.n(3) > 0; m[i] {
				idx = append(idx, i)
			}
		}
		w.add(nd.df.MaskView(m), len(idx), nd.pickRows(idx), nd)
		return fmt.Sprintf("#%d = #%d.MaskView(%s)", id, nd.id, showIdx(idx))
	case "view":
		w.add(nd.df.View(), n, nd.pickRows(seq(0, n)), nd)
		return fmt.Sprintf("#%d = #%d.View()", id, nd.id)
	case "reverse":
		w.add(nd.df.ReverseView(), n, nd.pickRows(reversed(seq(0, n))), nd)
		return fmt.Sprintf("#%d = #%d.ReverseView()", id, nd.id)
	case "column":
		names := subset(c, nd.names("fibso"))
		if len(names) == 0 {
			return ""
		}
		cols := nd.pickRows(seq(0, n))
		for name := range cols {
			if name != rowsName && !contains(names, name) {
				delete(cols, name)
			}
		}
		w.add(nd.df.ColumnView(names...), n, cols, nil)
		return fmt.Sprintf("#%d = #%d.ColumnView(%q)", id, nd.id, names)
	case "split":
		if n == 0 {
			return ""
		}
		size := c.Int("batch", (n+3)/4, n)
		parts := nd.df.SplitView(size)
		for i, p := range parts {
			end := (i + 1) * size
			if end > n {
				end = n
			}
			w.add(p, end-i*size, nd.pickRows(seq(i*size, end)), nd)
		}
		return fmt.Sprintf("#%d.. = #%d.SplitView(%d)", id, nd.id, size)
	case "splitn":
		k := c.Int("parts", 1, 6)
		parts := nd.df.SplitNView(k)
		at := 0
		for _, p := range parts {
			end := at + p.NumRows()
			if end > n {
				return "" // C04
			}
			w.add(p, end-at, nd.pickRows(seq(at, end)), nd)
			at = end
		}
		return fmt.Sprintf("#%d.. = #%d.SplitNView(%d)", id, nd.id, k)
	case "train":
		train, test := nd.df.SplitTrainTestViews(0.5)
		k := n - n/2
		if train.NumRows() != k || test.NumRows() != n-k {
			return ""
		}
		w.add(train, k, nd.pickRows(seq(0, k)), nd)
		w.add(test, n-k, nd.pickRows(seq(k, n)), nd)
		return fmt.Sprintf("#%d,#%d = #%d.SplitTrainTestViews(0.5)", id, id+1, nd.id)
	case "detached":
		names := w.detachNames(nd)
		all := len(names) == 0
		w.add(nd.df.DetachedView(names...), n, nd.copyCols(func(s string) bool { return all || contains(names, s) }), nil)
		return fmt.Sprintf("#%d = #%d.DetachedView(%q)", id, nd.id, names)
	case "unshared":
		// the in-place version, on a view that nothing else was derived from
		names := w.detachNames(nd)
		all := len(names) == 0
		v := nd.df.ShallowCopy()
		what := "ShallowCopy"
		if c.Bool("view") {
			v = nd.df.View()
			what = "View"
		}
		v.Unshare(names...)
		w.add(v, n, nd.copyCols(func(s string) bool { return all || contains(names, s) }), nil)
		return fmt.Sprintf("#%d = #%d.%s().Unshare(%q)", id, nd.id, what, names)
	case "renamed":
		names := nd.names("fibso")
		to := fmt.Sprintf("r%d", c.Int("new name", 0, 4))
		if len(names) == 0 || contains(names, to) {
			return ""
		}
		from := names[c.Int("col", 0, len(names)-1)]
		v, what := nd.df.View(), "View"
		if c.Bool("shallow") {
			v, what = nd.df.ShallowCopy(), "ShallowCopy"
		}
		v.Rename(from, to)
		cols := nd.pickRows(seq(0, n))
		cols[to] = cols[from]
		delete(cols, from)
		w.add(v, n, cols, nil)
		return fmt.Sprintf("#%d = #%d.%s().Rename(%q, %q)", id, nd.id, what, from, to)
	case "shallow":
		w.add(nd.df.ShallowCopy(), n, nd.pickRows(seq(0, n)), nil)
		return fmt.Sprintf("#%d = #%d.ShallowCopy()", id, nd.id)
	case "copy":
		cols := map[string]*mcol{}
		for name, col := range nd.cols {
			vals := make([]interface{}, n)
			for i, cl := range col.cells {
				vals[i] = cl.v
			}
			cols[name] = &mcol{col.kind, freshCells(vals)}
		}
		cols[rowsName] = freshRows(n)
		w.add(nd.df.Copy(), n, cols, nil)
		return fmt.Sprintf("#%d = #%d.Copy()", id, nd.id)
	case "sorted":
		by := nd.names("fib")
		if len(by) == 0 {
			return ""
		}
		col := by[c.Int("by", 0, len(by)-1)]
		v := nd.df.SortedView(col)
		t := w.table(nd)
		// identical rows cannot be told apart: give up on those
		idx := matchRows(c, v, t, seq(0, n))
		uniq := map[string]bool{}
		for i := 0; i < n; i++ {
			uniq[t.row(i)] = true
		}
		if len(uniq) != n {
			return ""
		}
		w.add(v, n, nd.pickRows(idx), nd)
		return fmt.Sprintf("#%d = #%d.SortedView(%q)", id, nd.id, col)
	case "sample":
		rand.Seed(1)
		k := c.Int("k", 0, n)
		v := nd.df.SampleView(k, false)
		t := w.table(nd)
		uniq := map[string]int{}
		for i := 0; i < n; i++ {
			uniq[t.row(i)] = i
		}
		if len(uniq) != n {
			return ""
		}
		got, err := observe(v)
		if err != nil {
			c.Bad("%v", err)
		}
		idx := make([]int, got.n)
		for j := range idx {
			i, ok := uniq[got.row(j)]
			if !ok {
				c.Bad("SampleView: row %s is not in the dataframe", got.row(j))
			}
			idx[j] = i
		}
		w.add(v, len(idx), nd.pickRows(idx), nd)
		return fmt.Sprintf("#%d = #%d.SampleView(%d)", id, nd.id, k)
	case "concat":
		// two column views put back together share the data of both
		names := nd.names("fibso")
		if len(names) < 2 {
			return ""
		}
		k := c.Int("cut", 1, len(names)-1)
		v, err := dataframe.ColumnConcatView(nd.df.ColumnView(names[:k]...), nd.df.ColumnView(names[k:]...))
		if err != nil {
			c.Bad("ColumnConcatView of two column views of the same dataframe: %v", err)
		}
		w.add(v, n, nd.pickRows(seq(0, n)), nil)
		return fmt.Sprintf("#%d = ColumnConcatView(#%d %q, %q)", id, nd.id, names[:k], names[k:])
	}
	panic(op)
}

// write changes values through nd.
func (w *world) write(nd *node) string {
	c := w.c
	names := nd.names("fibso")
	if nd.n == 0 || len(names) == 0 {
		return ""
	}
	name := names[c.Int("col", 0, len(names)-1)]
	col := nd.cols[name]
	o := &tabOpts{}
	if c.Int("how", 0, 2) == 2 {
		vals := genVals(c, col.kind, nd.n, o)
		mode := "Overwrite"
		switch {
		case col.kind == 'f' && c.Bool("float32"):
			mode = "OverwriteFloats32"
			f32 := make([]float32, nd.n)
			for i := range vals {
				f32[i] = float32(vals[i].(float64))
				vals[i] = float64(f32[i])
			}
			nd.df.OverwriteFloats32(name, f32)
		case col.kind == 'o' && c.Chance("strings", 2):
			mode = "OverwriteStrings"
			strs := make([]string, nd.n)
			for i := range vals {
				strs[i] = fmt.Sprint("o", i%3)
				vals[i] = strs[i]
			}
			nd.df.OverwriteStrings(name, strs)
		case (col.kind == 'o' || col.kind == 's') && c.Chance("other type", 2):
			// the type is only used for a new column
			mode = "OverwriteObjects"
			other := dataframe.StringObject
			if col.kind == 's' {
				other = dataframe.AnyObject
			}
			nd.df.OverwriteObjects(name, vals, other)
		default:
			overwrite(nd.df, name, col.kind, vals)
		}
		for i, v := range vals {
			w.put(col.cells[i], v)
		}
		return fmt.Sprintf("#%d.%s(%q)", nd.id, mode, name)
	}
	i := c.Int("row", 0, nd.n-1)
	v := genCell(c.source(1), col.kind, o)
	switch col.kind {
	case 'f':
		nd.df.Floats(name).Set(i, v.(float64))
	case 'i':
		nd.df.Ints(name).Set(i, v.(int))
	case 'b':
		nd.df.Bools(name).Set(i, v.(bool))
	case 's':
		if s, ok := v.(string); ok && c.Bool("via strings") {
			nd.df.Strings(name).Set(i, s)
		} else {
			nd.df.Objects(name).Set(i, v)
		}
	case 'o':
		nd.df.Objects(name).Set(i, v)
	}
	w.put(col.cells[i], v)
	return fmt.Sprintf("#%d[%q][%d] = %s", nd.id, name, i, showVal(v))
}

func (w *world) put(cl *cell, v interface{}) {
	cl.v = v
	w.wrote[cl] = true
}

// restructure changes the set of columns of nd, in place.
func (w *world) restructure(nd *node) string {
	c := w.c
	names := nd.names("fibso")
	pickName := func() string { return names[c.Int("col", 0, len(names)-1)] }
	newName := func() string {
		return pick(c, "new name", "n1", "n2", "n3", "a", "b")
	}
	op := pick(c, "struct op", "rename", "drop", "alloc", "overwrite", "int2float", "bool2float", "transfer")
	desc := ""
	switch op {
	case "rename":
		if len(names) == 0 {
			return ""
		}
		from, to := pickName(), newName()
		nd.df.Rename(from, to)
		if from != to {
			nd.cols[to] = nd.cols[from]
			delete(nd.cols, from)
		}
		desc = fmt.Sprintf("#%d.Rename(%q,%q)", nd.id, from, to)
		if from == to {
			return desc // nothing changes
		}
	case "drop":
		del := subset(c, names)
		if c.Bool("drop missing") {
			del = append(del, "nope")
		}
		nd.df.Drop(del...)
		for _, s := range del {
			delete(nd.cols, s)
		}
		desc = fmt.Sprintf("#%d.Drop(%q)", nd.id, del)
		if len(nd.names("fibso")) == len(names) {
			return desc // nothing changes
		}
	case "alloc", "overwrite":
		name := newName()
		kind := Kind(pick(c, "kind", []byte("fibso")...))
		if old, ok := nd.cols[name]; ok {
			if op == "overwrite" {
				return "" // that is a write
			}
			kind = old.kind
			if kind == 'o' {
				return ""
			}
		}
		if op == "overwrite" {
			if nd.n == 0 {
				return ""
			}
			vals := genVals(c, kind, nd.n, &tabOpts{})
			overwrite(nd.df, name, kind, vals)
			// the new column has as many cells as there are backing rows: rows
			// that are repeated in the view are one cell
			cells := w.rowCells(nd)
			for i, v := range vals {
				cells[i].v = v
			}
			nd.cols[name] = &mcol{kind, cells}
			desc = fmt.Sprintf("#%d.Overwrite(new %c:%q)", nd.id, kind, name)
			break
		}
		var zero interface{}
		switch kind {
		case 'f':
			nd.df.AllocFloats(name)
			zero = 0.0
		case 'i':
			nd.df.AllocInts(name)
			zero = 0
		case 'b':
			nd.df.AllocBools(name)
			zero = false
		case 's':
			nd.df.AllocStrings(name)
		case 'o':
			nd.df.AllocObjects(name)
		}
		cells := w.rowCells(nd)
		for i := range cells {
			cells[i].v = zero
		}
		nd.cols[name] = &mcol{kind, cells}
		desc = fmt.Sprintf("#%d.Alloc(%c:%q)", nd.id, kind, name)
	case "int2float", "bool2float":
		from := byte('i')
		if op == "bool2float" {
			from = 'b'
		}
		conv := subset(c, nd.names(string(from)))
		if op == "int2float" {
			nd.df.IntToFloats(conv...)
		} else {
			nd.df.BoolToFloats(conv...)
		}
		if len(conv) == 0 {
			return fmt.Sprintf("#%d.%s()", nd.id, op) // nothing changes
		}
		cp := nd.copyCols(func(s string) bool { return contains(conv, s) })
		for _, s := range conv {
			col := cp[s]
			col.kind = 'f'
			for _, cl := range col.cells {
				switch v := cl.v.(type) {
				case int:
					cl.v = float64(v)
				case bool:
					cl.v = 0.0
					if v {
						cl.v = 1.0
					}
				}
			}
		}
		nd.cols = cp
		desc = fmt.Sprintf("#%d.%s(%q)", nd.id, op, conv)
	case "transfer":
		// a fresh dataframe receives the columns of nd, then drops some
		v := dataframe.EmptyDataFrame(nd.n, 2)
		if nd.df.AreIndicesAltered() || nd.df.NumAllocatedRows() != nd.n || nd.n == 0 || len(names) == 0 {
			return ""
		}
		id := w.next
		v.TransferRawDataFrom(&nd.df.RawData)
		w.add(v, nd.n, nd.pickRows(seq(0, nd.n)), nil)
		return fmt.Sprintf("#%d = EmptyDataFrame(%d).TransferRawDataFrom(#%d)", id, nd.n, nd.id)
	}
	w.restructured(nd)
	return desc
}

// rowCells makes one new cell per distinct backing row of nd.
func (w *world) rowCells(nd *node) []*cell {
	out := make([]*cell, nd.n)
	seen := map[*cell]*cell{}
	for i, cl := range nd.cols[rowsName].cells {
		if seen[cl] == nil {
			seen[cl] = &cell{}
		}
		out[i] = seen[cl]
	}
	return out
}

func newWorld(c *Case, maxRows int) *world {
	w := &world{c: c, wrote: map[*cell]bool{}}
	t := genTable(c, tabOpts{minCols: 1, maxCols: 4, minRows: 1, maxRows: maxRows})
	c.D("#0 = %s", t)
	w.addTable(t)
	return w
}

func (w *world) anyNode() *node { return w.nodes[w.c.Int("node", 0, len(w.nodes)-1)] }

// shared counts the cells that at least two dataframes of the pool show.
func (w *world) sharedWrites() bool {
	seen := map[*cell]int{}
	for _, nd := range w.nodes {
		mine := map[*cell]bool{}
		for _, col := range nd.cols {
			if col.kind == rowsKind {
				continue
			}
			for _, cl := range col.cells {
				mine[cl] = true
			}
		}
		for cl := range mine {
			seen[cl]++
		}
	}
	for cl := range w.wrote {
		if seen[cl] > 1 {
			return true
		}
	}
	return false
}

func TestC02_WritesAndViews(t *testing.T) {
	Prop(t, "a history of up to 14 view-taking and value-writing operations on a pool of dataframes, all of which are re-read after every operation; non-trivial: a cell shown by two dataframes was written", 500, func(c *Case) {
		w := newWorld(c, 45)
		steps := c.Int("steps", 1, 14)
		for k := 0; k < steps; k++ {
			nd := w.anyNode()
			w.at = nd
			var d string
			switch r := c.Int("step", 0, 8); {
			case r < 4 && len(w.nodes) < 9:
				d = w.newView(nd)
			case r == 8:
				d = w.unshare(nd)
			default:
				d = w.write(nd)
			}
			if d == "" {
				continue
			}
			c.D("%s", d)
			w.check(d)
			c.NT(w.sharedWrites())
		}
	})
}

func TestC03_StructureIsolation(t *testing.T) {
	Prop(t, "a history of up to 14 view-taking, column-changing (rename, drop, allocate, convert, overwrite a new column, transfer) and value-writing operations on a pool of dataframes, all of which are re-read after every operation; non-trivial: the columns of a view were changed while its parent was alive", 500, func(c *Case) {
		w := newWorld(c, 45)
		steps := c.Int("steps", 1, 14)
		for k := 0; k < steps; k++ {
			nd := w.anyNode()
			w.at = nd
			var d string
			switch r := c.Int("step", 0, 6); {
			case r <= 1 && len(w.nodes) < 9:
				d = w.newView(nd)
			case r <= 4:
				wasView := nd.id > 0
				d = w.restructure(nd)
				if d != "" && wasView && len(w.nodes) > 1 {
					c.NT(true)
				}
			case r == 5:
				d = w.unshare(nd)
			default:
				d = w.write(nd)
			}
			if d == "" {
				continue
			}
			c.D("%s", d)
			w.check(d)
		}
	})
}
