package props

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"testing"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
)

// ------------------------------------------------- C16 access and overwrite

const idCol = "row id"

// genIDFrame draws a dataframe and a view on it, in which the column idCol
// holds the number of the underlying row: two rows of the view with the same id
// are the same row of the data.
func genIDFrame(c *Case, o tabOpts, v viewOpts) frames {
	t := genTable(c, o)
	ids := make([]interface{}, t.n)
	for i := range ids {
		ids[i] = i
	}
	delete(t.cols, idCol)
	t.set(idCol, 'i', ids)
	c.D("table %s", t)
	root := build(c, t)
	v.keep = append(v.keep, idCol)
	v.noCopy = true
	df, tt := derive(c, root, t, v)
	return frames{root, t, df, tt}
}

// writeCell changes the underlying cell of row i, in all the rows of t.
func (t *Table) writeCell(name string, i int, v interface{}) {
	ids := append([]interface{}(nil), t.cols[idCol].vals...)
	for j := range ids {
		if ids[j] == ids[i] {
			t.cols[name].vals[j] = v
		}
	}
}

func TestC16_Accessors(t *testing.T) {
	Prop(t, "random histories of Get, Set, Overwrite*, SharedIndex and CopyValuesToInterfaces on one view, mirrored on a reference table; values are read back through all the accessors and on the dataframe itself; non-trivial: the view has at least 2 rows, is not the dataframe itself and something was written", 700, func(c *Case) {
		f := genIDFrame(c, tabOpts{minCols: 1}, viewOpts{repeat: true, cols: true, maxOps: 3})
		df, tt := f.df, f.t
		n := tt.n
		steps := c.Int("steps", 3, 10)
		wrote := false
		for s := 0; s < steps; s++ {
			names := tt.all()
			name := names[c.Int("column", 0, len(names)-1)]
			kind := tt.cols[name].kind
			op := pick(c, "access", "set", "set", "overwrite", "new", "copyvals", "shared", "overwrite alias", "vec")
			if name == idCol && op != "copyvals" && op != "shared" {
				continue
			}
			switch op {
			case "set":
				if n == 0 {
					continue
				}
				i := c.Int("row", 0, n-1)
				v := genCell(c.source(1), kind, &tabOpts{noNil: c.Bool("not nil")})
				c.D("%q.Set(%d, %s)", name, i, showVal(v))
				switch kind {
				case 'f':
					df.Floats(name).Set(i, v.(float64))
				case 'i':
					df.Ints(name).Set(i, v.(int))
				case 'b':
					df.Bools(name).Set(i, v.(bool))
				case 's':
					if s, ok := v.(string); ok {
						df.Strings(name).Set(i, s)
						if g := df.Strings(name).Get(i); g != s {
							c.Bad("Strings(%q).Get(%d) is %q after Set(%q)", name, i, g, s)
						}
					} else {
						df.Objects(name).Set(i, nil)
					}
				case 'o':
					df.Objects(name).Set(i, v)
				}
				tt.writeCell(name, i, v)
				wrote = true
			case "overwrite", "overwrite alias":
				o := tabOpts{noNil: c.Bool("no nil")}
				vals := genVals(c, kind, n, &o)
				c.D("overwrite %q with %v", name, vals)
				if n == 0 {
					continue
				}
				overwriteAnyWay(c, df, name, kind, vals)
				for i, v := range vals {
					tt.writeCell(name, i, v)
				}
				wrote = true
			case "new":
				if n == 0 {
					continue // a column of an empty dataframe does not tell it exists
				}
				name = fmt.Sprintf("new%d", s)
				kind = Kind(pick(c, "kind", []byte("fibso")...))
				o := tabOpts{noNil: c.Bool("no nil")}
				vals := genVals(c, kind, n, &o)
				c.D("overwrite the new column %q with %v", name, vals)
				kind = overwriteAnyWay(c, df, name, kind, vals)
				tt.set(name, kind, make([]interface{}, n))
				for i, v := range vals {
					tt.writeCell(name, i, v)
				}
				wrote = true
			case "copyvals":
				c.D("CopyValuesToInterfaces(%q)", name)
				got := df.CopyValuesToInterfaces(name)
				if len(got) != n {
					c.Bad("CopyValuesToInterfaces(%q) has %d values instead of %d", name, len(got), n)
				}
				for i := range got {
					if !sameVal(got[i], tt.cols[name].vals[i]) {
						c.Bad("CopyValuesToInterfaces(%q)[%d] is %s instead of %s", name, i, showVal(got[i]), showVal(tt.cols[name].vals[i]))
					}
					got[i] = "changed" // must not write to the dataframe
				}
			case "shared":
				var shared []int
				for i := 0; i < n; i++ {
					switch kind {
					case 'f':
						shared = append(shared, df.Floats(name).SharedIndex(i))
					case 'i':
						shared = append(shared, df.Ints(name).SharedIndex(i))
					case 'b':
						shared = append(shared, df.Bools(name).SharedIndex(i))
					case 's':
						shared = append(shared, df.Strings(name).SharedIndex(i))
					default:
						shared = append(shared, df.Objects(name).SharedIndex(i))
					}
				}
				ids := tt.cols[idCol].vals
				seen := map[int]interface{}{}
				back := map[interface{}]int{}
				for i, k := range shared {
					if id, ok := seen[k]; ok && id != ids[i] {
						c.Bad("two rows of the data have the shared index %d", k)
					}
					if k2, ok := back[ids[i]]; ok && k != k2 {
						c.Bad("one row of the data has the shared indices %d and %d", k, k2)
					}
					if k < 0 || k >= df.NumAllocatedRows() {
						c.Bad("shared index %d of %d", k, df.NumAllocatedRows())
					}
					seen[k], back[ids[i]] = ids[i], k
				}
			case "vec":
				fl := tt.names("f")
				if len(fl) == 0 || n == 0 {
					continue
				}
				name = fl[c.Int("float column", 0, len(fl)-1)]
				v, w := df.Floats(name).VecDense(), df.Floats(name).VecDenseCopy()
				if v.Len() != n || w.Len() != n {
					c.Bad("VecDense() has %d elements, VecDenseCopy() %d, the column %d", v.Len(), w.Len(), n)
				}
				for i := 0; i < n; i++ {
					if !sameVal(v.AtVec(i), tt.cols[name].vals[i]) || !sameVal(w.AtVec(i), tt.cols[name].vals[i]) {
						c.Bad("element %d of VecDense is %v, of VecDenseCopy %v, of column %q %s", i, v.AtVec(i), w.AtVec(i), name, showVal(tt.cols[name].vals[i]))
					}
				}
				for i := 0; i < n; i++ {
					w.SetVec(i, 1234.5) // must not write to the dataframe
				}
			}
			c.expect("after "+op, df, tt)
		}
		c.NT(n >= 2 && df != f.root && wrote)
		// the accessors refuse what does not exist
		for _, name := range append(tt.all(), "no such column") {
			k := Kind('?')
			if col, ok := tt.cols[name]; ok {
				k = col.kind
			}
			if p := panics(func() { df.CopyValuesToInterfaces(name) }); (p == nil) != (k != '?') {
				c.Bad("CopyValuesToInterfaces(%q), a column of kind %c, panics with %v", name, k, p)
			}
			for _, x := range []struct {
				kinds string
				get   func() interface{}
			}{
				{"f", func() interface{} { return df.Floats(name) }},
				{"i", func() interface{} { return df.Ints(name) }},
				{"b", func() interface{} { return df.Bools(name) }},
				{"so", func() interface{} { return df.Objects(name) }},
				{"s", func() interface{} { return df.Strings(name) }},
			} {
				want := false
				for i := range x.kinds {
					want = want || Kind(x.kinds[i]) == k
				}
				if p := panics(func() { x.get() }); (p == nil) != want {
					c.Bad("the accessor for %q on column %q of kind %c panics with %v", x.kinds, name, k, p)
				}
			}
		}
		if n > 0 {
			a := df.Ints(idCol)
			for _, i := range []int{-1, n, n + 1} {
				if panics(func() { a.Get(i) }) == nil || panics(func() { a.Set(i, 0) }) == nil {
					c.Bad("access to row %d of %d does not panic", i, n)
				}
			}
		}
	})
}

// overwriteAnyWay overwrites the column by one of the suitable functions and
// returns its kind. The slices given to the library are scribbled on afterwards,
// since the library must have copied them.
func overwriteAnyWay(c *Case, df *dataframe.DataFrame, name string, kind Kind, vals []interface{}) Kind {
	switch kind {
	case 'f':
		if c.Chance("float32", 3) {
			x := make([]float32, len(vals))
			for i := range x {
				x[i] = float32(vals[i].(float64))
				vals[i] = float64(x[i])
			}
			df.OverwriteFloats32(name, x)
			for i := range x {
				x[i] = -77
			}
			return kind
		}
		x := toFloats(vals)
		df.OverwriteFloats64(name, x)
		for i := range x {
			x[i] = -77
		}
	case 'i':
		x := toInts(vals)
		df.OverwriteInts(name, x)
		for i := range x {
			x[i] = -77
		}
	case 'b':
		x := toBools(vals)
		df.OverwriteBools(name, x)
		for i := range x {
			x[i] = !x[i]
		}
	case 's':
		if !hasNil(vals) && c.Bool("as strings") {
			x := toStrings(vals)
			df.OverwriteStrings(name, x)
			for i := range x {
				x[i] = "scribble"
			}
			return kind
		}
		x := append([]interface{}(nil), vals...)
		df.OverwriteObjects(name, x, dataframe.StringObject)
		for i := range x {
			x[i] = "scribble"
		}
	case 'o':
		x := append([]interface{}(nil), vals...)
		df.OverwriteObjects(name, x, dataframe.AnyObject)
		for i := range x {
			x[i] = "scribble"
		}
	}
	return kind
}

// An Overwrite that creates a column leaves the rows that the view does not
// show at zero, and can be used on dataframes that have no column yet.
func TestC16_NewColumns(t *testing.T) {
	Prop(t, "columns are allocated and overwritten on dataframes without any column: empty dataframes, RawData or views whose columns were all dropped; non-trivial: at least 2 rows", 250, func(c *Case) {
		n := genRows(c, 0, 60)
		cpu := genCPU(c)
		var df *dataframe.DataFrame
		ids := make([]interface{}, n)
		for i := range ids {
			ids[i] = i
		}
		plain := newTable(n).set("z", 'i', ids).set("y", 's', genVals(c, 's', n, &tabOpts{}))
		idx := seq(0, n)
		how := pick(c, "how", "empty", "dropped", "raw", "view")
		switch how {
		case "empty":
			df = dataframe.EmptyDataFrame(n, cpu)
		case "dropped":
			df = buildPlain(plain, cpu)
			df.Drop("z", "y")
		case "raw":
			b := builderOf(plain, cpu)
			b.RawData.Drop("y", "z")
			df = b.ToDataFrame()
		case "view":
			idx = genIndices(c, n, false)
			df = buildPlain(plain, cpu).IndexView(idx)
			df.Drop("z", "y")
		}
		c.D("%s, %d rows, indices %s", how, n, showIdx(idx))
		c.expect(how, df, newTable(len(idx)))
		want := newTable(len(idx))
		for k, kind := range []Kind("fibso") {
			if c.Chance("skip", 3) {
				continue
			}
			name := fmt.Sprintf("c%d", k)
			vals := make([]interface{}, len(idx))
			zero := map[Kind]interface{}{'f': 0.0, 'i': 0, 'b': false}[kind]
			for i := range vals {
				vals[i] = zero
			}
			switch kind {
			case 'f':
				df.AllocFloats(name)
			case 'i':
				df.AllocInts(name)
			case 'b':
				df.AllocBools(name)
			case 's':
				df.AllocStrings(name)
			case 'o':
				df.AllocObjects(name)
			}
			c.D("alloc %c:%s", kind, name)
			want.set(name, kind, vals)
			c.expect("after allocation", df, want)
			if len(idx) > 0 && c.Bool("overwrite") {
				vals := genVals(c, kind, len(idx), &tabOpts{})
				overwriteAnyWay(c, df, name, kind, vals)
				want.set(name, kind, vals)
				c.D("overwrite %s with %v", name, vals)
				c.expect("after overwriting", df, want)
			}
		}
		c.NT(len(idx) >= 2)
	})
}

// --------------------------------------------- C17 matrices, vectors, rows

// numTable draws a table whose numeric columns have the given kinds.
func numTable(c *Case, names []string, kinds []Kind, lo, hi int) *Table {
	t := newTable(genRows(c, lo, hi))
	for k, name := range names {
		t.set(name, kinds[k], genVals(c, kinds[k], t.n, &tabOpts{}))
	}
	if c.Bool("text too") {
		t.set("text", 's', genVals(c, 's', t.n, &tabOpts{}))
	}
	return t
}

func asFloat(v interface{}) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case int:
		return float64(x)
	case bool:
		if x {
			return 1
		}
		return 0
	}
	panic("not a number")
}

func asFloat32(v interface{}) float32 {
	switch x := v.(type) {
	case int:
		return float32(x)
	}
	return float32(asFloat(v))
}

func genNumCols(c *Case) ([]string, []Kind, []string) {
	k := c.Int("numeric columns", 1, 6)
	names := append([]string(nil), plainNames[:k]...)
	kinds := make([]Kind, k)
	for i := range kinds {
		kinds[i] = Kind(pick(c, "kind", []byte("fib")...))
	}
	// the order asked for, possibly with omissions and repetitions
	var order []string
	for i, m := 0, c.Int("width", 1, k+2); i < m; i++ {
		order = append(order, names[c.Int("col", 0, k-1)])
	}
	if c.Bool("all columns") {
		order = append([]string(nil), names...)
		sort.Strings(order)
	}
	return names, kinds, order
}

func TestC17_DenseMatrix(t *testing.T) {
	Prop(t, "one Dense64Batching makes matrices of several dataframes and views of different sizes, one after the other; non-trivial: at least 2 dataframes of different sizes", 500, func(c *Case) {
		names, kinds, order := genNumCols(c)
		given := append([]string(nil), order...)
		bat := dataframe.NewDense64Batching(given)
		k := c.Int("dataframes", 1, 5)
		sizes := map[int]bool{}
		c.D("columns %q", order)
		for s := 0; s < k; s++ {
			t := numTable(c, names, kinds, 1, 300)
			c.D("table %s", t)
			df := build(c, t)
			df, t = derive(c, df, t, viewOpts{repeat: true, cols: true, keep: names, minRows: 1})
			m := bat.DenseMatrix(df)
			rows, cols := m.Dims()
			if rows != t.n || cols != len(order) {
				c.Bad("the matrix is %d x %d instead of %d x %d", rows, cols, t.n, len(order))
			}
			for j, name := range order {
				for i := 0; i < t.n; i++ {
					if want := asFloat(t.cols[name].vals[i]); !sameVal(m.At(i, j), want) {
						c.Bad("element (%d,%d) of matrix %d is %v instead of %v (column %q)", i, j, s, m.At(i, j), want, name)
					}
				}
			}
			// writing to the matrix does not write to the dataframe
			type settable interface{ Set(i, j int, v float64) }
			if tr, ok := m.T().(settable); ok {
				for j := range order {
					for i := 0; i < t.n; i++ {
						tr.Set(j, i, 1234.5)
					}
				}
			} else if mm, ok := m.(settable); ok {
				for j := range order {
					for i := 0; i < t.n; i++ {
						mm.Set(i, j, 1234.5)
					}
				}
			}
			c.expect("the dataframe after its matrix was changed", df, t)
			// and the other way round
			for _, name := range names {
				if df.FloatHeader().NameSet()[name] {
					df.Floats(name).Set(0, -4321.5)
				}
			}
			for j := range order {
				if m.At(0, j) == -4321.5 {
					c.Bad("the matrix %d changed with the dataframe", s)
				}
			}
			sizes[t.n] = true
		}
		c.NT(len(sizes) >= 2)
	})
}

func TestC17_Float32Iterator(t *testing.T) {
	Prop(t, "one Float32Iterator runs over several dataframes and views, completely or partially, before it is reset to the next; non-trivial: some dataframe has over 128 rows, or there are at least 2", 500, func(c *Case) {
		names, kinds, order := genNumCols(c)
		var it *dataframe.Float32Iterator
		k := c.Int("dataframes", 1, 4)
		c.D("columns %q", order)
		for s := 0; s < k; s++ {
			t := numTable(c, names, kinds, 0, 600)
			c.D("table %s", t)
			df := build(c, t)
			df, t = derive(c, df, t, viewOpts{repeat: true, cols: true, keep: names})
			if it == nil {
				it = dataframe.NewFloat32Iterator(df, append([]string(nil), order...))
			} else {
				it.Reset(df, c.Bool("check"))
			}
			if fmt.Sprintf("%q", it.Columns()) != fmt.Sprintf("%q", order) {
				c.Bad("Columns() is %q instead of %q", it.Columns(), order)
			}
			upTo := t.n
			if c.Chance("stop early", 3) {
				upTo = c.Int("up to", 0, t.n)
			}
			c.D("%d of %d rows", upTo, t.n)
			var anyShared func(i int) int
			switch kinds[0] {
			case 'f':
				anyShared = df.Floats(names[0]).SharedIndex
			case 'i':
				anyShared = df.Ints(names[0]).SharedIndex
			default:
				anyShared = df.Bools(names[0]).SharedIndex
			}
			for i := 0; i < upTo; i++ {
				row, idx, shared := it.NextRow()
				if row == nil {
					c.Bad("no more rows after %d of %d", i, t.n)
				}
				if idx != i {
					c.Bad("row %d is numbered %d", i, idx)
				}
				if shared != anyShared(i) {
					c.Bad("row %d is said to be row %d of the data instead of %d", i, shared, anyShared(i))
				}
				if len(row) != len(order) {
					c.Bad("row %d has %d elements instead of %d", i, len(row), len(order))
				}
				for j, name := range order {
					want := asFloat32(t.cols[name].vals[i])
					if math.Float32bits(row[j]) != math.Float32bits(want) && !(row[j] != row[j] && want != want) {
						c.Bad("row %d of dataframe %d, column %d (%q): %v instead of %v", i, s, j, name, row[j], want)
					}
					row[j] = -1234.5 // the caller may change the row
				}
			}
			if upTo == t.n {
				for again := 0; again < 2; again++ {
					if row, idx, _ := it.NextRow(); row != nil || idx != t.n {
						c.Bad("after the %d rows, NextRow returns (%v, %d)", t.n, row, idx)
					}
				}
			}
			c.expect("the dataframe after the iteration", df, t)
			c.NT(t.n > 128 || k > 1)
		}
	})
}

func TestC16_Internals(t *testing.T) {
	Prop(t, "the slices and indices given out by DataFrameInternals show the rows of views and are the data itself; non-trivial: a view of at least 2 rows other than the dataframe", 400, func(c *Case) {
		f := genIDFrame(c, tabOpts{minCols: 1}, viewOpts{repeat: true, cols: true, maxOps: 3})
		in := dataframe.DataFrameInternals{DF: f.df}
		idx := in.GetIndices()
		if len(idx) != f.t.n {
			c.Bad("GetIndices has %d elements instead of %d", len(idx), f.t.n)
		}
		for _, name := range f.t.all() {
			col := f.t.cols[name]
			var get func(i int) interface{}
			switch col.kind {
			case 'f':
				d := in.FloatData(name)
				get = func(i int) interface{} { return d[i] }
			case 'i':
				d := in.IntData(name)
				get = func(i int) interface{} { return d[i] }
			case 'b':
				d := in.BoolData(name)
				get = func(i int) interface{} { return d[i] }
			default:
				d := in.ObjectData(name)
				get = func(i int) interface{} { return d[i] }
			}
			for i := range idx {
				if v := get(idx[i]); !sameVal(v, col.vals[i]) {
					c.Bad("the internal data of %q has %s at row %d instead of %s", name, showVal(v), i, showVal(col.vals[i]))
				}
			}
		}
		if f.t.n > 0 {
			in.IntData(idCol)[idx[0]] = 1 << 20
			f.t.writeCell(idCol, 0, 1<<20)
			c.expect("after the internal data were changed", f.df, f.t)
		}
		c.NT(f.t.n >= 2 && f.df != f.root)
	})
}

// ------------------------------------------------------------- C18 hashing

func TestC18_Hash(t *testing.T) {
	Prop(t, "some of the string columns of a view are hashed by HashStringsView or a HashEncoder, then of another view with the same strings at other places and another number of CPUs; non-trivial: at least 2 different strings and one that occurs twice", 700, func(c *Case) {
		t := genTable(c, tabOpts{force: "s"})
		if o := t.names("o"); len(o) > 0 && t.n > 0 {
			// objects, some of which are strings
			src, strs := c.source(t.n), t.cols[t.names("s")[0]].vals
			for i := range t.cols[o[0]].vals {
				if src.n(2) == 0 {
					t.cols[o[0]].vals[i] = strs[src.n(t.n)]
				}
			}
		}
		c.D("table %s", t)
		f := frames{root: build(c, t), rootT: t}
		f.df, f.t = derive(c, f.root, t, viewOpts{repeat: true, cols: true})
		strs := f.t.names("s")
		hashes := map[string]int{}
		owner := map[int]string{}
		twice := false
		check := func(what string, df *dataframe.DataFrame, tt *Table, cols []string) *dataframe.DataFrame {
			var res *dataframe.DataFrame
			c.D("%s: hash %q", what, cols)
			c.Risky()
			if len(cols) > 0 && sameNames(cols, tt.names("s")) && c.Bool("encoder") {
				enc := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
				if err := enc.Fit(df); err != nil {
					c.Bad("Fit: %v", err)
				}
				if !sameNames(enc.TransformedColumns(), cols) {
					c.Bad("TransformedColumns() is %q instead of %q", enc.TransformedColumns(), cols)
				}
				var err error
				if res, err = enc.TransformView(df); err != nil {
					c.Bad("TransformView: %v", err)
				}
			} else {
				res = df.HashStringsView(cols...)
			}
			got, err := observe(res)
			if err != nil {
				c.Bad("%s: %v", what, err)
			}
			want := tt.clone()
			for _, name := range cols {
				g, ok := got.cols[name]
				if !ok || g.kind != 'i' {
					c.Bad("%s: column %q is not an int column after hashing", what, name)
				}
				if g == nil || got.n != tt.n {
					c.Bad("%s: %d rows instead of %d", what, got.n, tt.n)
				}
				for i, v := range tt.cols[name].vals {
					h := g.vals[i].(int)
					s, isStr := v.(string)
					if !isStr {
						if h != -1 && v == nil {
							c.Bad("%s: the missing string at row %d of %q has hash %d instead of -1", what, i, name, h)
						}
						continue
					}
					if h < 0 {
						c.Bad("%s: %q has the negative hash %d", what, s, h)
					}
					if old, ok := hashes[s]; ok {
						twice = true
						if old != h {
							c.Bad("%s: %q has hash %d at row %d of %q and %d elsewhere", what, s, h, i, name, old)
						}
					}
					if o, ok := owner[h]; ok && o != s {
						c.Bad("%s: %q and %q have the same hash %d", what, o, s, h)
					}
					hashes[s], owner[h] = h, s
				}
				want.set(name, 'i', g.vals)
			}
			if d := diff(got, want); d != "" {
				c.Bad("%s, other columns: %s", what, d)
			}
			c.expect(what+": the dataframe itself", df, tt)
			return res
		}
		cols := subset(c, strs)
		if c.Bool("all strings") {
			cols = strs
		} else if o := f.t.names("o"); len(o) > 0 && c.Bool("objects") {
			cols = append(cols, subset(c, o)...)
		}
		if c.Chance("look-alikes", 4) {
			// strings that look like one another
			base := pick(c, "base", "a", "Hello", "", "12", "caf\u00e9", longString, "a sentence of about 40 characters, or so", "x y")
			vals := []interface{}{base, nil}
			for k := 0; k < decorations; k++ {
				d := decorate(base, k)
				vals = append(vals, d, decorate(d, (k+1)%decorations))
			}
			for k := c.Int("prefixes", 0, 3); k > 0; k-- {
				if n := c.Int("cut", 0, len(base)); n < len(base) {
					vals = append(vals, base[:n], base[n:])
				}
			}
			like := newTable(len(vals)).set("s", 's', vals)
			check("look-alikes", build(c, like), like, []string{"s"})
		}
		if c.Chance("long look-alikes", 5) {
			// long strings that differ at one place
			n := pick(c, "length", 40, 64, 65, 100, 128, 129, 256, 257, 500, 1024, 1025, 4096, 5000, 9000)
			src := rngSource{rand.New(rand.NewSource(int64(c.Int("long seed", 0, 1<<30))))}
			base := make([]byte, n)
			for i := range base {
				base[i] = byte('a' + src.n(3))
			}
			vals := []interface{}{string(base)}
			add := func(b []byte) { vals = append(vals, string(b)) }
			for k := c.Int("how many", 1, 40); k > 0; k-- {
				b := append([]byte(nil), base...)
				switch src.n(4) {
				case 0:
					i, j := src.n(n), src.n(n)
					b[i], b[j] = b[j], b[i]
				case 1:
					add(b[:src.n(n)])
					add(b[src.n(n):])
				default:
					i := src.n(n)
					b[i] = byte('a' + src.n(26))
				}
				add(b)
			}
			like := newTable(len(vals)).set("s", 's', vals)
			check("long look-alikes", build(c, like), like, []string{"s"})
		}
		res := check("first", f.df, f.t, cols)
		// the hashes are not shared with anything, the other columns are
		if f.t.n > 0 && len(cols) > 0 {
			res.Ints(cols[0]).Set(0, 77)
			c.expect("the dataframe after a hash was overwritten", f.df, f.t)
		}
		df2, t2 := derive(c, f.df, f.t, viewOpts{repeat: true, cols: false, maxOps: 3})
		df2 = df2.View()
		df2.SetMaxCPU(pick(c, "cpu2", 1, 2, 8))
		check("second", df2, t2, cols)
		c.NT(len(hashes) >= 2 && twice)
	})
}

// Many different strings: a hash of fewer than 63 bits would collide.
func TestC18_Collisions(t *testing.T) {
	const n = 400000
	Prop(t, "400000 different strings of one family (numbers, long strings with a common beginning or end, 8 random bytes, addresses) are hashed; all cases are non-trivial", 1, func(c *Case) {
		seed := c.Int("seed", 0, 1<<30)
		rng := rand.New(rand.NewSource(int64(seed)))
		family := c.Int("family", 0, 4)
		from := rng.Intn(1 << 40)
		c.D("family %d, seed %d", family, seed)
		vals := make([]interface{}, 0, n)
		seen := make(map[string]bool, n)
		for i := 0; len(vals) < n; i++ {
			var s string
			switch family {
			case 0:
				s = fmt.Sprint(from + i)
			case 1:
				s = longString + fmt.Sprintf("%08x", rng.Uint32())
			case 2:
				s = fmt.Sprintf("%08x", rng.Uint32()) + longString
			case 3:
				b := make([]byte, 8)
				rng.Read(b)
				s = string(b)
			default:
				s = fmt.Sprintf("customer_%x@example.com", from+i*i)
			}
			if !seen[s] {
				seen[s] = true
				vals = append(vals, s)
			}
		}
		tt := newTable(n).set("s", 's', vals)
		h := buildPlain(tt, pick(c, "cpu", 1, 2, 8)).HashStringsView("s").Ints("s")
		hashes := make(map[int]string, n)
		for i, v := range vals {
			s, x := v.(string), h.Get(i)
			if o, ok := hashes[x]; ok {
				c.Bad("%q and %q have the same hash %d", o, s, x)
			}
			if x < 0 {
				c.Bad("%q has the negative hash %d", s, x)
			}
			hashes[x] = s
		}
		c.NT(true)
	})
}

// --------------------------------------------------------- C28 conversions

func TestC28_Labels(t *testing.T) {
	Prop(t, "LabelToInt on string columns of views; non-trivial: at least 2 different labels, one of which occurs twice", 600, func(c *Case) {
		f := genFrame(c, tabOpts{force: "s", maxCols: 3}, viewOpts{repeat: true, cols: true})
		for _, name := range f.t.names("s") {
			got, mapping := f.df.LabelToInt(name)
			if len(got) != f.t.n {
				c.Bad("LabelToInt(%q) returns %d labels instead of %d", name, len(got), f.t.n)
			}
			want := map[string]int{}
			present := 0
			for i, v := range f.t.cols[name].vals {
				if v == nil {
					if got[i] != -1 {
						c.Bad("the missing label at row %d of %q becomes %d instead of -1", i, name, got[i])
					}
					continue
				}
				present++
				k, ok := want[v.(string)]
				if !ok {
					k = len(want)
					want[v.(string)] = k
				}
				if got[i] != k {
					c.Bad("label %q at row %d of %q becomes %d instead of %d", v, i, name, got[i], k)
				}
			}
			if len(mapping) != len(want) {
				c.Bad("the mapping of %q has %d labels instead of %d: %v", name, len(mapping), len(want), mapping)
			}
			for s, k := range want {
				if g, ok := mapping[s]; !ok || g != k {
					c.Bad("the mapping of %q says %q is %d (%v) instead of %d", name, s, g, ok, k)
				}
			}
			c.NT(len(want) >= 2 && present > len(want))
		}
		for _, name := range append(f.t.names("fibo"), "no such column") {
			if panics(func() { f.df.LabelToInt(name) }) == nil {
				c.Bad("LabelToInt(%q) does not panic though it is not a string column", name)
			}
		}
		c.expect("the dataframe afterwards", f.df, f.t)
	})
}

func TestC28_ToFloats(t *testing.T) {
	Prop(t, "int and bool columns of dataframes, views and RawData are converted to floats; non-trivial: a column is converted, at least 2 rows", 600, func(c *Case) {
		f := genFrame(c, tabOpts{force: pick(c, "force", "i", "b", "ib", "ibs")}, viewOpts{repeat: true, cols: true})
		df := f.df
		before := f.t.clone()
		view := c.Bool("on a view")
		if view {
			df = df.View()
		}
		want := f.t.clone()
		ints, bools := subset(c, f.t.names("i")), subset(c, f.t.names("b"))
		if c.Chance("repeated names and floats", 4) {
			// what is already made of floats is left as it is
			ints = append(append(append([]string(nil), ints...), subset(c, f.t.names("f"))...), ints...)
			bools = append(append(append([]string(nil), bools...), subset(c, f.t.names("f"))...), bools...)
		}
		conv := func(names []string) {
			for _, name := range names {
				if want.cols[name].kind == 'f' {
					continue
				}
				vals := make([]interface{}, want.n)
				for i, v := range want.cols[name].vals {
					vals[i] = asFloat(v)
				}
				want.set(name, 'f', vals)
			}
		}
		c.D("IntToFloats(%q), BoolToFloats(%q)", ints, bools)
		if c.Bool("bools first") {
			df.BoolToFloats(bools...)
			conv(bools)
			c.expect("after BoolToFloats", df, want)
			df.IntToFloats(ints...)
			conv(ints)
		} else {
			df.IntToFloats(ints...)
			conv(ints)
			c.expect("after IntToFloats", df, want)
			df.BoolToFloats(bools...)
			conv(bools)
		}
		c.expect("after both conversions", df, want)
		if view {
			c.expect("the dataframe it is a view of", f.df, before)
		}
		c.NT(f.t.n >= 2 && len(ints)+len(bools) > 0)
		if c.Chance("not a column to convert", 6) {
			for _, name := range append(f.t.names("so"), "not there") {
				v := f.df.View()
				if panics(func() { v.IntToFloats(name) }) == nil || panics(func() { v.BoolToFloats(name) }) == nil {
					c.Bad("%q is converted to floats", name)
				}
			}
		}
		// the same on RawData
		b := builderOf(before, 2)
		b.RawData.IntToFloats(ints...)
		b.RawData.BoolToFloats(bools...)
		c.expectRaw("RawData after both conversions", b.RawData, want)
		// CopyValuesToInterfaces of every column
		for _, name := range want.all() {
			got := df.CopyValuesToInterfaces(name)
			if len(got) != want.n {
				c.Bad("CopyValuesToInterfaces(%q): %d values instead of %d", name, len(got), want.n)
			}
			for i, v := range want.cols[name].vals {
				if !sameVal(v, got[i]) {
					c.Bad("CopyValuesToInterfaces(%q)[%d] is %s instead of %s", name, i, showVal(got[i]), showVal(v))
				}
			}
		}
	})
}

// --------------------------------------------------------------- C29 masks

func TestC29_Masks(t *testing.T) {
	Prop(t, "masks are requested, filled and applied in turn on the views of one dataframe, some of them longer than the dataframe, with and without thread-safe masking; non-trivial: at least 2 masks on different views with at least 2 rows", 600, func(c *Case) {
		f := genFrame(c, tabOpts{maxCols: 3}, viewOpts{repeat: true, cols: true})
		safe := c.Bool("thread safe")
		if safe {
			if f.df.ThreadSafeMasking(true) != f.df {
				c.Bad("ThreadSafeMasking does not return the dataframe itself")
			}
		}
		pool := []frames{{df: f.df, t: f.t}}
		c.D("thread safe: %v", safe)
		for i := c.Int("views beforehand", 0, 3); i > 0; i-- {
			p := pool[c.Int("of", 0, len(pool)-1)]
			v, t := p.df.ShallowCopy(), p.t
			if c.Bool("another view") {
				v, t = derive(c, p.df, p.t, viewOpts{repeat: true, maxOps: 2, noCopy: safe})
			} else {
				c.D("ShallowCopy")
			}
			pool = append(pool, frames{df: v, t: t})
		}
		k := c.Int("steps", 1, 6)
		var held [][]bool
		var heldWant [][]bool
		used := map[int]bool{}
		for s := 0; s < k; s++ {
			which := c.Int("which", 0, len(pool)-1)
			p := pool[which]
			n := p.t.n
			zero := c.Bool("zero")
			var mask []bool
			if zero {
				mask = p.df.ZeroMask()
			} else {
				mask = p.df.EmptyMask()
			}
			c.D("mask on #%d (zero: %v)", which, zero)
			if len(mask) != n {
				c.Bad("the mask has %d elements, the dataframe %d rows", len(mask), n)
			}
			if zero {
				for i, b := range mask {
					if b {
						c.Bad("element %d of ZeroMask is true", i)
					}
				}
			}
			src := c.source(n)
			var idx []int
			for i := range mask {
				b := src.n(2) == 1
				if b {
					mask[i] = true
					idx = append(idx, i)
				} else if !zero {
					mask[i] = false
				}
			}
			used[which] = used[which] || n >= 2
			v := p.df.MaskView(mask)
			want := p.t.rows(idx)
			c.expect("MaskView", v, want)
			if safe {
				// thread-safe masks have memory of their own
				for h := range held {
					for i := range held[h] {
						if held[h][i] != heldWant[h][i] {
							c.Bad("a thread-safe mask changed while another one was filled")
						}
					}
				}
				held = append(held, mask)
				heldWant = append(heldWant, append([]bool(nil), mask...))
			} else {
				// the mask may be recycled: the view must not depend on it
				for i := range mask {
					mask[i] = !mask[i]
				}
				c.expect("MaskView after its mask was changed", v, want)
			}
			if c.Chance("copy", 4) {
				// a deep copy has masks of its own
				before := p.df.ZeroMask()
				for i := range before {
					before[i] = i%2 == 0
				}
				other := p.df.Copy()
				theirs := other.ZeroMask()
				for i := range theirs {
					theirs[i] = i%3 != 0
				}
				for i := range before {
					if before[i] != (i%2 == 0) || theirs[i] != (i%3 != 0) {
						c.Bad("the masks of a dataframe and of its deep copy share their memory")
					}
				}
				c.D("mask on a deep copy")
			}
			d, t := derive(c, v, want, viewOpts{repeat: true, maxOps: 2, noCopy: safe})
			pool = append(pool, frames{df: d, t: t})
			c.expect("the dataframe after masking", p.df, p.t)
		}
		for _, p := range pool {
			c.expect("after all the masking", p.df, p.t)
		}
		c.NT(len(used) >= 2)
	})
}
