package props

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/encoding/unicode"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------- C04 splits

func checkPartition(c *Case, what string, parts []*dataframe.DataFrame, t *Table) []int {
	c.Helper()
	at := 0
	var sizes []int
	for i, p := range parts {
		if p == nil {
			c.Bad("%s: part %d is nil", what, i)
		}
		n := p.NumRows()
		if at+n > t.n {
			c.Bad("%s: the first %d parts have more rows than the dataframe (%d)", what, i+1, t.n)
		}
		c.expect(what, p, t.rows(seq(at, at+n)))
		at += n
		sizes = append(sizes, n)
	}
	if at != t.n {
		c.Bad("%s: the parts have %d rows, the dataframe %d", what, at, t.n)
	}
	return sizes
}

const ruleC04 = "a dataframe in a random internal state is split; non-trivial: at least 2 rows and 2 parts"

func TestC04_SplitView(t *testing.T) {
	Prop(t, ruleC04, 900, func(c *Case) {
		f := genFrame(c, anyCols(), viewOpts{repeat: true, cols: true})
		n := f.t.n
		size := c.Int("batch", 1, n+3)
		if c.Bool("large batch") {
			size = c.Int("batch2", (n+4)/4, n+1)
		}
		if c.Chance("huge batch", 10) {
			size = pick(c, "huge", math.MaxInt64, math.MaxInt64-1, 1<<32, 1<<32+1, 1<<31, 1<<31-1, 1<<16+1, 1<<8+1, 1<<62, math.MaxUint32)
			if size <= n {
				size += n
			}
		}
		c.D("SplitView(%d) of %d rows", size, n)
		parts := f.df.SplitView(size)
		sizes := checkPartition(c, "SplitView", parts, f.t)
		for i, s := range sizes {
			if i < len(sizes)-1 && s != size {
				c.Bad("SplitView(%d): part %d of %d has %d rows", size, i, len(sizes), s)
			}
			if s > size || (s == 0 && n > 0) {
				c.Bad("SplitView(%d): part %d has %d rows", size, i, s)
			}
		}
		c.NT(n >= 2 && len(parts) >= 2)
		c.expect("the dataframe after the split", f.df, f.t)
		c.expect("the original after the split", f.root, f.rootT)
		if panics(func() { f.df.SplitView(-c.Int("bad", 0, 3)) }) == nil {
			c.Bad("SplitView does not panic on a batch size that is not positive")
		}
	})
}

func TestC04_SplitNView(t *testing.T) {
	Prop(t, ruleC04, 900, func(c *Case) {
		f := genFrame(c, anyCols(), viewOpts{repeat: true, cols: true})
		n := f.t.n
		k := c.Int("parts", 1, 12)
		if c.Chance("many parts", 12) {
			k = c.Int("more parts", 13, 1500)
		}
		c.D("SplitNView(%d) of %d rows", k, n)
		parts := f.df.SplitNView(k)
		if len(parts) != k {
			c.Bad("SplitNView(%d) returns %d dataframes", k, len(parts))
		}
		sizes := checkPartition(c, "SplitNView", parts, f.t)
		for i, s := range sizes {
			if s > (n+k-1)/k {
				c.Bad("SplitNView(%d) of %d rows: part %d has %d rows", k, n, i, s)
			}
		}
		if n >= 1 && n < k {
			c.L("fewer rows than parts")
		}
		c.NT(n >= 2 && k >= 2)
		if f.df.SplitNView(0) != nil {
			c.Bad("SplitNView(0) is not nil")
		}
		if panics(func() { f.df.SplitNView(-1) }) == nil {
			c.Bad("SplitNView(-1) does not panic")
		}
		// the parts do not interfere
		if k >= 2 {
			parts[0].View().Drop(f.t.all()...)
			parts[0].AllocInts("fresh")
			checkPartition(c, "SplitNView, after adding a column to the first part", parts[1:], f.t.rows(seq(sizes[0], n)))
		}
		c.expect("the dataframe after the split", f.df, f.t)
	})
}

func TestC04_TrainTest(t *testing.T) {
	Prop(t, ruleC04, 700, func(c *Case) {
		f := genFrame(c, anyCols(), viewOpts{repeat: true, cols: true})
		n := f.t.n
		ratio := pick(c, "ratio", 0, 1, 0.5, 0.25, 0.1, 0.9, 1.0/3, 0.999, 0.01)
		if c.Bool("any ratio") {
			ratio = float64(c.Int("ratio/1000", 0, 1000)) / 1000
		}
		c.D("SplitTrainTestViews(%v) of %d rows", ratio, n)
		train, test := f.df.SplitTrainTestViews(ratio)
		sizes := checkPartition(c, "SplitTrainTestViews", []*dataframe.DataFrame{train, test}, f.t)
		if math.Abs(float64(sizes[1])-float64(n)*ratio) >= 1.0001 || (ratio == 0 && sizes[1] != 0) || (ratio == 1 && sizes[0] != 0) {
			c.Bad("SplitTrainTestViews(%v) of %d rows: %d test rows", ratio, n, sizes[1])
		}
		c.NT(n >= 2 && sizes[0] > 0 && sizes[1] > 0)
		for _, bad := range []float64{-0.01, 1.01} {
			if panics(func() { f.df.SplitTrainTestViews(bad) }) == nil {
				c.Bad("SplitTrainTestViews(%v) does not panic", bad)
			}
		}
		c.expect("the dataframe after the split", f.df, f.t)
	})
}

// ------------------------------------------------------- C05 sorting, top n

const ruleC05 = "a dataframe in a random internal state is sorted by a float, int or bool column with ties, extreme and missing values; non-trivial: at least 3 rows and not already sorted"

// less orders the values of a column; missing floats are put at the end that
// nanLow tells.
func lessVal(a, b interface{}, nanLow bool) bool {
	switch x := a.(type) {
	case bool:
		return !x && b.(bool)
	case int:
		return x < b.(int)
	case float64:
		y := b.(float64)
		if x != x || y != y {
			if x != x && y != y {
				return false
			}
			if x != x {
				return nanLow
			}
			return !nanLow
		}
		return x < y
	}
	panic("not sortable")
}

func sortedVals(vals []interface{}, nanLow bool) []interface{} {
	out := append([]interface{}(nil), vals...)
	sort.SliceStable(out, func(i, j int) bool { return lessVal(out[i], out[j], nanLow) })
	return out
}

// sameKeys tells whether two sequences of keys are the same up to ties.
func sameKeys(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if lessVal(a[i], b[i], true) || lessVal(b[i], a[i], true) {
			return false
		}
	}
	return true
}

func genSortable(c *Case) (frames, string) {
	o := tabOpts{minCols: 1, maxCols: 5, force: pick(c, "key kind", "f", "i", "b", "f", "i")}
	t := genTable(c, o)
	key := t.names(o.force)[0]
	if o.force == "i" && c.Chance("close big ints", 3) {
		base := pick(c, "base", 1<<53, 1<<62, -(1 << 60), 1<<40)
		for i := range t.cols[key].vals {
			t.cols[key].vals[i] = base + c.source(t.n).n(5)
		}
	}
	c.D("table %s", t)
	root := build(c, t)
	df, tt := derive(c, root, t, viewOpts{repeat: true, cols: true, keep: []string{key}, maxOps: 3})
	return frames{root, t, df, tt}, key
}

func TestC05_SortedView(t *testing.T) {
	Prop(t, ruleC05, 1000, func(c *Case) {
		f, key := genSortable(c)
		c.D("SortedView(%q)", key)
		v := f.df.SortedView(key)
		idx := matchRows(c, v, f.t, seq(0, f.t.n))
		vals := f.t.rows(idx).cols[key].vals
		if !sameKeys(vals, sortedVals(vals, false)) && !sameKeys(vals, sortedVals(vals, true)) {
			c.Bad("SortedView(%q) is not sorted: %v", key, vals)
		}
		c.expect("the sorted view", v, f.t.rows(idx))
		c.expect("the dataframe after sorting", f.df, f.t)
		c.expect("the original after sorting", f.root, f.rootT)
		c.L("kind %c", f.t.cols[key].kind)
		c.NT(f.t.n >= 3 && !identity(idx, f.t.n))
		c.expect("sorting twice", v.SortedView(key).ColumnView(key), f.t.rows(idx).only([]string{key}))
		for _, s := range append(f.t.names("so"), "not a column") {
			if panics(func() { f.df.SortedView(s) }) == nil {
				c.Bad("SortedView(%q) does not panic though it is not a float, int or bool column", s)
			}
		}
	})
}

func TestC05_TopView(t *testing.T) {
	Prop(t, ruleC05, 1000, func(c *Case) {
		f, key := genSortable(c)
		n := c.Int("n", 0, f.t.n+2)
		if c.Chance("few", 4) {
			n = c.Int("few n", 1, 2)
		}
		asc := c.Bool("ascending")
		sorted := c.Bool("sorted")
		c.D("TopView(%q,%d,ascending=%v,sorted=%v) of %d rows", key, n, asc, sorted, f.t.n)
		v := f.df.TopView(key, n, asc, sorted)
		want := n
		if want > f.t.n {
			want = f.t.n
		}
		if v.NumRows() != want {
			c.Bad("TopView returns %d rows instead of %d", v.NumRows(), want)
		}
		got, err := observe(v)
		if err != nil {
			c.Bad("TopView: %v", err)
		}
		// the rows are rows of the dataframe, each used once
		left := map[string]int{}
		for i := 0; i < f.t.n; i++ {
			left[f.t.row(i)]++
		}
		for i := 0; i < got.n; i++ {
			if left[got.row(i)]--; left[got.row(i)] < 0 {
				c.Bad("TopView: row %s appears more often than in the dataframe", got.row(i))
			}
		}
		if d := diff(got.rows(nil), f.t.rows(nil)); d != "" {
			c.Bad("TopView: %s", d)
		}
		vals := got.cols[key].vals
		ok := false
		inOrder, err := observe(f.df.SortedView(key).ColumnView(key))
		if err != nil {
			c.Bad("SortedView: %v", err)
		}
		for _, nanLow := range []bool{false, true} {
			all := sortedVals(f.t.cols[key].vals, nanLow)
			if !sameKeys(all, inOrder.cols[key].vals) {
				continue // missing values come where SortedView puts them
			}
			if !asc {
				for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
					all[i], all[j] = all[j], all[i]
				}
			}
			top := all[:want]
			cmp := vals
			if !sorted {
				cmp = sortedVals(vals, nanLow)
				top = sortedVals(top, nanLow)
			}
			ok = ok || sameKeys(cmp, top)
		}
		if !ok {
			c.Bad("TopView(%q,%d,ascending=%v,sorted=%v) returns %v out of %v", key, n, asc, sorted, vals, f.t.cols[key].vals)
		}
		c.L("kind %c", f.t.cols[key].kind)
		c.NT(f.t.n >= 3 && want > 0)
		// it is a view: changing its columns leaves the dataframe alone
		v.Rename(key, "renamed key")
		c.expect("the dataframe after renaming a column of the top view", f.df, f.t)
		if panics(func() { f.df.TopView(key, -1, asc, sorted) }) == nil {
			c.Bad("TopView with a negative n does not panic")
		}
	})
}

// ------------------------------------------------------------ C06 RowConcat

func TestC06_RowConcat(t *testing.T) {
	Prop(t, "up to 4 (sometimes 40) dataframes with the same columns, in random internal states, are concatenated row-wise; non-trivial: at least two of them have rows", 900, func(c *Case) {
		first := genTable(c, tabOpts{minCols: 1, maxCols: 4, maxRows: 100000})
		k := c.Int("frames", 1, 4)
		if sizeCap >= 9 && c.Chance("many frames", 15) {
			k = c.Int("more frames", 5, 40)
		}
		var dfs []*dataframe.DataFrame
		var ts []*Table
		names := first.all()
		withRows := 0
		for i := 0; i < k; i++ {
			if i > 0 && c.Chance("the same frame again", 6) {
				j := c.Int("which", 0, i-1)
				c.D("frame %d: frame %d again", i, j)
				dfs = append(dfs, dfs[j])
				ts = append(ts, ts[j])
				continue
			}
			t := newTable(genRows(c, 0, 60))
			for _, name := range names {
				t.set(name, first.cols[name].kind, genVals(c, first.cols[name].kind, t.n, &tabOpts{}))
			}
			c.D("frame %d: %s", i, t)
			df, tt := derive(c, build(c, t), t, viewOpts{repeat: true, maxOps: 3, grow: 90})
			dfs = append(dfs, df)
			ts = append(ts, tt)
			if tt.n > 0 {
				withRows++
			}
		}
		want := newTable(0)
		for _, name := range names {
			var vals []interface{}
			for _, t := range ts {
				vals = append(vals, t.cols[name].vals...)
			}
			want.set(name, first.cols[name].kind, vals)
			want.n = len(vals)
		}
		c.NT(withRows >= 2)
		got, err := dataframe.RowConcat(dfs...)
		if err != nil {
			c.Bad("RowConcat: %v", err)
		}
		c.expect("the concatenation", got, want)
		// nothing is shared, in either direction
		if want.n > 0 {
			scribble(got)
			for i := range dfs {
				c.expect("an input after changing the concatenation", dfs[i], ts[i])
			}
			got, _ = dataframe.RowConcat(dfs...)
			for _, df := range dfs {
				scribble(df)
			}
			c.expect("the concatenation after changing the inputs", got, want)
		}
		if _, err := dataframe.RowConcat(); err == nil {
			c.Bad("RowConcat() of nothing returns no error")
		}
	})
}

// scribble changes every value of a dataframe.
func scribble(df *dataframe.DataFrame) {
	n := df.NumRows()
	for _, name := range df.FloatHeader().NameList() {
		a := df.Floats(name)
		for i := 0; i < n; i++ {
			a.Set(i, 987654.25+float64(i))
		}
	}
	for _, name := range df.IntHeader().NameList() {
		a := df.Ints(name)
		for i := 0; i < n; i++ {
			a.Set(i, 987654+i)
		}
	}
	for _, name := range df.BoolHeader().NameList() {
		a := df.Bools(name)
		vals := make([]bool, n)
		for i := range vals {
			vals[i] = !a.Get(i)
		}
		for i := range vals {
			a.Set(i, vals[i])
		}
	}
	for _, name := range df.ObjectHeader().NameList() {
		a := df.Objects(name)
		for i := 0; i < n; i++ {
			a.Set(i, "scribbled")
		}
	}
}

func TestC06_RowConcatMismatch(t *testing.T) {
	Prop(t, "two to four (sometimes up to 40) dataframes, one of which lacks a column, has one more, or has one of another type, are concatenated row-wise; non-trivial: they have rows", 500, func(c *Case) {
		base := genTable(c, tabOpts{minCols: 1, maxCols: 4, maxRows: 20})
		k := c.Int("frames", 2, 4)
		if c.Chance("many frames", 6) {
			k = c.Int("more frames", 5, 40)
		}
		odd := c.Int("odd one", 0, k-1)
		mode := pick(c, "mismatch", "missing", "extra", "type", "renamed")
		var dfs []*dataframe.DataFrame
		var ts []*Table
		for i := 0; i < k; i++ {
			t := base.clone()
			if i == odd {
				names := t.all()
				name := names[c.Int("col", 0, len(names)-1)]
				switch mode {
				case "missing":
					if len(names) == 1 {
						return
					}
					delete(t.cols, name)
				case "extra":
					k := Kind(pick(c, "kind", []byte("fibso")...))
					t.set("extra", k, genVals(c, k, t.n, &tabOpts{}))
				case "renamed":
					t.rename(name, "renamed")
				case "type":
					old := t.cols[name].kind
					k := Kind(pick(c, "kind", []byte("fibo")...))
					if k == old || (old == 's' && k == 'o') {
						k = 'f'
						if old == 'f' {
							k = 'i'
						}
					}
					t.set(name, k, genVals(c, k, t.n, &tabOpts{}))
				}
			}
			c.D("frame %d: %s", i, t)
			dfs = append(dfs, build(c, t))
			ts = append(ts, t)
		}
		c.D("mismatch: %s in frame %d", mode, odd)
		got, err := dataframe.RowConcat(dfs...)
		if err == nil {
			g, _ := observe(got)
			c.Bad("RowConcat of dataframes with different columns (%s) returns no error but %v", mode, g)
		}
		for i := range dfs {
			c.expect("an input after the error", dfs[i], ts[i])
		}
		c.L(mode)
		c.NT(base.n > 0)
	})
}

// -------------------------------------------------------- C07 column concat

func splitNames(c *Case, pool []string, k int) [][]string {
	out := make([][]string, k)
	for _, name := range pool {
		i := c.Int("goes to", 0, k) // k: unused
		if i < k {
			out[i] = append(out[i], name)
		}
	}
	return out
}

func TestC07_ColumnConcat(t *testing.T) {
	Prop(t, "up to 3 dataframes with disjoint columns, whose rows are viewed alike, differently or not at all, are concatenated column-wise by all three functions; non-trivial: two of them have columns and at least 2 rows", 1500, func(c *Case) {
		n := genRows(c, 1, 40)
		k := c.Int("frames", 1, 3)
		cols := splitNames(c, []string{"a", "b", "c", "d", "é", "x y"}, k)
		mode := pick(c, "rows", "as is", "same views", "near views", "any", "near views")
		m := c.Int("view rows", 0, n)
		var shared []int
		if mode != "as is" {
			shared = genIndices(c, n, true)
			if mode == "near views" {
				if m < 2 {
					m = 2
				}
				s := c.source(m)
				shared = make([]int, m)
				for i := range shared {
					shared[i] = s.n(n)
				}
			}
		}
		var dfs []*dataframe.DataFrame
		var ts []*Table
		want := newTable(0)
		withCols := 0
		altered := false
		allSame := true
		for i := 0; i < k; i++ {
			t := newTable(n)
			for _, name := range cols[i] {
				kind := Kind(pick(c, "kind", []byte("fibso")...))
				t.set(name, kind, genVals(c, kind, n, &tabOpts{}))
			}
			c.D("frame %d: %s", i, t)
			df := build(c, t)
			idx := seq(0, n)
			switch mode {
			case "same views":
				idx = shared
				df = df.IndexView(idx)
			case "near views":
				idx = append([]int(nil), shared...)
				if i > 0 {
					// same length, slightly different content
					switch c.Int("near", 0, 4) {
					case 0:
						p, q := c.Int("p", 0, m-1), c.Int("q", 0, m-1)
						idx[p], idx[q] = idx[q], idx[p]
					case 1:
						idx[c.Int("p", 0, m-1)] = c.Int("row", 0, n-1)
					case 2:
						// compensating changes, to defeat sums and hashes
						p := c.Int("p", 0, m-2)
						d := c.Int("d", 1, 2)
						e := pick(c, "times", 1, 7, 31, 2)
						if a, b := idx[p]+d, idx[p+1]-e*d; a < n && b >= 0 {
							idx[p], idx[p+1] = a, b
						} else if a, b := idx[p]-d, idx[p+1]+e*d; a >= 0 && b < n {
							idx[p], idx[p+1] = a, b
						}
					case 3:
						idx[m-1] = c.Int("last", 0, n-1)
					}
				}
				if c.Chance("contiguous", 4) && m <= n {
					idx = seq(0, m)
					df = df.SliceView(0, m)
				} else {
					df = df.IndexView(idx)
				}
			case "any":
				df, t = derive(c, df, t, viewOpts{repeat: true, maxOps: 2, noCopy: true})
				idx = seq(0, t.n)
				allSame = false // not known
			}
			if mode == "near views" || mode == "same views" {
				c.D("  rows %s", showIdx(idx))
			}
			if mode != "any" && i > 0 && (len(idx) != ts[0].n || !equalInts(idx, firstIdx(c, dfs[0]))) {
				allSame = false
			}
			tt := t.rows(idx)
			if len(cols[i]) > 0 {
				withCols++
			}
			altered = altered || df.AreIndicesAltered()
			dfs = append(dfs, df)
			ts = append(ts, tt)
			want.n = ts[0].n
			for _, name := range tt.all() {
				want.set(name, tt.cols[name].kind, tt.cols[name].vals)
			}
		}
		sameRows := true
		for _, t := range ts {
			sameRows = sameRows && t.n == ts[0].n
		}
		c.L("%s, same rows %v", mode, sameRows)
		c.NT(withCols >= 2 && ts[0].n >= 2)
		view, err := dataframe.ColumnConcatView(dfs...)
		smart, err2 := dataframe.ColumnSmartConcat(dfs...)
		cpy, err3 := dataframe.ColumnCopyConcat(dfs...)
		if !sameRows {
			if err == nil || err2 == nil || err3 == nil {
				c.Bad("dataframes with different numbers of rows are concatenated: errors are view:%v smart:%v copy:%v", err, err2, err3)
			}
			return
		}
		if err == nil {
			c.L("view possible")
			c.expect("ColumnConcatView", view, want)
			c.expect("a copy of ColumnConcatView", view.Copy(), want)
		} else if !altered || (allSame && mode != "any") {
			c.Bad("ColumnConcatView of dataframes with the same rows: %v", err)
		}
		if err2 != nil {
			c.Bad("ColumnSmartConcat: %v", err2)
		}
		c.expect("ColumnSmartConcat", smart, want)
		c.expect("a copy of ColumnSmartConcat", smart.Copy(), want)
		if err3 != nil {
			c.Bad("ColumnCopyConcat: %v", err3)
		}
		c.expect("ColumnCopyConcat", cpy, want)
		// later use of the results
		for _, name := range want.names("f") {
			if want.n == 0 {
				break // gonum has no empty vectors
			}
			vec := smart.Floats(name).VecDense()
			if vec.Len() != want.n && want.n > 0 {
				c.Bad("VecDense of a concatenated column has %d elements instead of %d", vec.Len(), want.n)
			}
			for i := 0; i < vec.Len(); i++ {
				if !sameVal(vec.AtVec(i), want.cols[name].vals[i]) {
					c.Bad("VecDense of the concatenated column %q: row %d is %v", name, i, vec.AtVec(i))
				}
			}
		}
		for i := range dfs {
			c.expect("an input after the concatenations", dfs[i], ts[i])
		}
		// structural changes of the result stay there
		if len(want.cols) > 0 {
			v2 := cpy
			if err == nil {
				v2 = view
			}
			v2.Rename(want.all()[0], "renamed")
			for i := range dfs {
				c.expect("an input after renaming a column of the result", dfs[i], ts[i])
			}
			v2.Rename("renamed", want.all()[0])
		}
		// the copy shares nothing, the view everything
		if want.n > 0 {
			cpy2, _ := dataframe.ColumnCopyConcat(dfs...)
			scribble(cpy)
			for i := range dfs {
				c.expect("an input after changing the copy", dfs[i], ts[i])
			}
			for _, df := range dfs {
				scribble(df)
			}
			c.expect("the copy after changing the inputs", cpy2, want)
			if err == nil {
				changed := newTable(want.n)
				for _, df := range dfs {
					x, err := observe(df)
					if err != nil {
						return // scribbling may put strings in object columns
					}
					for _, name := range x.all() {
						changed.set(name, x.cols[name].kind, x.cols[name].vals)
					}
				}
				c.expect("the view after changing the inputs", view, changed)
			}
		}
	})
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// firstIdx reads the inner indices of a dataframe.
func firstIdx(c *Case, df *dataframe.DataFrame) []int {
	return append([]int(nil), dataframe.DataFrameInternals{DF: df}.GetIndices()...)
}

// TestC07_LongViews: long views that are the same but for one or two rows.
func TestC07_LongViews(t *testing.T) {
	Prop(t, "two or three views of 10 to 6000 rows, whose row orders are the same but for a swap or a replacement anywhere (at an end, in the middle, after a power of two), or entirely the same, are concatenated column-wise; non-trivial: the orders differ", 60, func(c *Case) {
		n := pick(c, "base rows", 10, 100, 600, 1500, 3000, 6000)
		n += c.Int("more rows", 0, n/4)
		src := rngSource{rand.New(rand.NewSource(int64(rapid.Uint32().Draw(c.T, "order"))))}
		k := c.Int("frames", 2, 3)
		base := src.r.Perm(n)
		m := n
		if c.Chance("shorter", 3) {
			m = c.Int("view rows", 4, n)
			base = base[:m]
		}
		if c.Chance("nearly ordered", 4) {
			base = seq(0, m)
		}
		odd := c.Int("which differs", 0, k) // k: none
		common := c.Bool("out of one dataframe")
		var dfs []*dataframe.DataFrame
		var rows [][]int
		all := newTable(n)
		for i := 0; i < k; i++ {
			vals := make([]interface{}, n)
			for j := range vals {
				vals[j] = float64(j + i*100000)
			}
			all.set(fmt.Sprint("col", i), 'f', vals)
		}
		whole := buildPlain(all, genCPU(c))
		for i := 0; i < k; i++ {
			name := fmt.Sprint("col", i)
			idx := append([]int(nil), base...)
			if i == odd {
				p := pick(c, "where", 0, 1, m/2, m-2, m-1, 31, 127, 255, 256, 512, 1000, 1001, 1024, 2048, 4096, src.n(m))
				if p >= m {
					p = m - 1
				}
				q := src.n(m)
				if c.Bool("neighbour") && p > 0 {
					q = p - 1
				}
				if c.Bool("replace") {
					idx[p] = idx[q]
				} else {
					idx[p], idx[q] = idx[q], idx[p]
				}
			}
			rows = append(rows, idx)
			df := whole
			if !common {
				df = buildPlain(all.only([]string{name}), 1)
			} else {
				df = whole.ColumnView(name)
			}
			dfs = append(dfs, df.IndexView(idx))
		}
		differ := false
		want := newTable(m)
		for i := range rows {
			differ = differ || !equalInts(rows[i], rows[0])
			name := fmt.Sprint("col", i)
			want.set(name, 'f', all.rows(rows[i]).cols[name].vals)
		}
		c.D("%d views of %d rows of %d, in the same order: %v", k, m, n, !differ)
		c.L("same order: %v", !differ)
		c.NT(differ)
		view, err := dataframe.ColumnConcatView(dfs...)
		if err == nil {
			c.expect("ColumnConcatView", view, want)
		} else if !differ {
			c.Bad("ColumnConcatView of dataframes with the same rows: %v", err)
		}
		smart, err := dataframe.ColumnSmartConcat(dfs...)
		must(c, "ColumnSmartConcat", err)
		c.expect("ColumnSmartConcat", smart, want)
		cpy, err := dataframe.ColumnCopyConcat(dfs...)
		must(c, "ColumnCopyConcat", err)
		c.expect("ColumnCopyConcat", cpy, want)
	})
}

func TestC07_Overlap(t *testing.T) {
	Prop(t, "two or three dataframes of the same size, two of which have a column of the same name and of the same or another type, are concatenated column-wise; non-trivial: they have rows", 400, func(c *Case) {
		n := genRows(c, 0, 20)
		k := c.Int("frames", 2, 3)
		var dfs []*dataframe.DataFrame
		both := c.Int("first", 0, k-2)
		other := c.Int("second", both+1, k-1)
		for i := 0; i < k; i++ {
			t := newTable(n)
			t.set(string(rune('a'+i)), 'f', genVals(c, 'f', n, &tabOpts{}))
			if i == both || i == other {
				kind := Kind(pick(c, "kind", []byte("fibso")...))
				t.set("common", kind, genVals(c, kind, n, &tabOpts{}))
			}
			c.D("frame %d: %s", i, t)
			dfs = append(dfs, build(c, t))
		}
		_, e1 := dataframe.ColumnConcatView(dfs...)
		_, e2 := dataframe.ColumnSmartConcat(dfs...)
		_, e3 := dataframe.ColumnCopyConcat(dfs...)
		if e1 == nil || e2 == nil || e3 == nil {
			c.Bad("dataframes with a common column are concatenated: errors are view:%v smart:%v copy:%v", e1, e2, e3)
		}
		if dataframe.CheckNoColumnOverlap(dfs) == nil {
			c.Bad("CheckNoColumnOverlap sees no overlap")
		}
		if err := dataframe.CheckNoColumnOverlap([]*dataframe.DataFrame{dfs[both], dfs[other].ColumnView(string(rune('a' + other)))}); err != nil {
			c.Bad("CheckNoColumnOverlap of disjoint columns: %v", err)
		}
		c.NT(n > 0)
	})
}

// ------------------------------------------------------- C08, C09 encodings

type enc struct {
	name string
	e    encoding.Encoding
	ok   []string // strings it can represent
}

var encodings = []enc{
	{"utf-8", nil, []string{"a", "é", "日本", "고랭", "", "x,y", "ß", "ž", "ŝ"}},
	{"latin1", charmap.ISO8859_1, []string{"a", "é", "ß", "", "x,y", "ÿ", "long enough to matter é"}},
	{"utf-16be", unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM), []string{"a", "é", "日本", "고랭", "", "x,y", "😀"}},
	{"utf-16le", unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM), []string{"a", "é", "日本", "고랭", "", "ž"}},
	{"euc-kr", korean.EUCKR, []string{"a", "고랭", "", "x,y", "가"}},
	{"shift-jis", japanese.ShiftJIS, []string{"a", "日本", "", "カ"}},
	{"windows-1252", charmap.Windows1252, []string{"a", "é", "€", "", "ß"}},
	{"koi8-r", charmap.KOI8R, []string{"a", "", "да", "Ж"}},
	{"gbk", simplifiedchinese.GBK, []string{"a", "", "日本", "中文", "да"}},
	{"big5", traditionalchinese.Big5, []string{"a", "", "中文", "本"}},
}

// bytes that an encoding reads like other bytes, which it would write instead
var redundant = map[string][]string{
	"shift-jis":    {"\x87\x90", "\x81\xe0", "\x81\xca", "\xee\xf9", "\xfa\x54", "\xed\x40", "a\x87\x9ab"},
	"utf-16be":     {"\x00a", "\xfe\xff\x00a", "\x65\xe5"},
	"big5":         {"\xa1\xc3", "\xa1\xc5", "\xa2\xcc", "\xa4\x51", "\xa2\xce", "\xa4\xca"},
	"gbk":          {"\x80", "\xa2\xe3", "\xa8\xbf"},
	"windows-1252": {"\x80", "\xe9", "\x81", "\x9d"},
}

func (e enc) encode(s string) (string, error) {
	if e.e == nil {
		return s, nil
	}
	return e.e.NewEncoder().String(s)
}

// genText draws a table with at least one string column whose content is
// representable in enc e, and returns the dataframe, declared to be in that
// encoding, with the reference in UTF-8.
func genText(c *Case, e enc) (*dataframe.DataFrame, *Table) {
	t := genTable(c, tabOpts{minCols: 1, maxCols: 4, force: "s", maxRows: 100000})
	bytesT := t.clone()
	long := 0
	if c.Chance("long strings", 12) {
		long = pick(c, "length", 100, 1000, 2000, 4090, 5000, 8188, 10000, 70000)
	}
	for _, name := range t.names("s") {
		s := c.source(t.n)
		if long > 0 {
			s = rngSource{rand.New(rand.NewSource(int64(c.Int("long seed", 0, 1<<30))))}
		}
		for i := range t.cols[name].vals {
			if s.n(7) == 6 {
				t.cols[name].vals[i] = nil
				bytesT.cols[name].vals[i] = nil
				continue
			}
			str := e.ok[s.n(len(e.ok))]
			if long > 0 && s.n(t.n) < 2 {
				// a long one, whose characters start at any offset
				var sb strings.Builder
				for size := long + s.n(9); sb.Len() < size; {
					sb.WriteString(e.ok[s.n(len(e.ok))])
				}
				str = sb.String()
			}
			t.cols[name].vals[i] = str
			b, err := e.encode(str)
			if err != nil {
				panic(err)
			}
			bytesT.cols[name].vals[i] = b
		}
	}
	c.D("in %s: %s", e.name, t)
	b := builderOf(bytesT, genCPU(c))
	if e.e != nil {
		b = b.TextEncoding(e.e)
	}
	return b.ToDataFrame(), t
}

func encodeTable(t *Table, e enc) (*Table, bool) {
	out := t.clone()
	for _, name := range t.names("s") {
		for i, v := range t.cols[name].vals {
			if v != nil {
				b, err := e.encode(v.(string))
				if err != nil {
					return nil, false
				}
				out.cols[name].vals[i] = b
			}
		}
	}
	return out, true
}

// decodeTable is the inverse of encodeTable on the strings that genText draws.
func decodeTable(t *Table, e enc) *Table {
	back := map[string]string{}
	for _, s := range e.ok {
		b, err := e.encode(s)
		if err != nil {
			panic(err)
		}
		back[b] = s
	}
	out := t.clone()
	for _, name := range t.names("s") {
		for i, v := range t.cols[name].vals {
			if v != nil {
				s, ok := back[v.(string)]
				if !ok && e.e == nil {
					s = v.(string)
				} else if !ok {
					var err error
					if s, err = e.e.NewDecoder().String(v.(string)); err != nil {
						panic(err)
					}
				}
				out.cols[name].vals[i] = s
			}
		}
	}
	return out
}

// deriveText is derive for a dataframe whose strings are in encoding e.
func deriveText(c *Case, df *dataframe.DataFrame, t *Table, e enc, o viewOpts) (*dataframe.DataFrame, *Table) {
	encoded, ok := encodeTable(t, e)
	if !ok {
		panic("not encodable")
	}
	df, encoded = derive(c, df, encoded, o)
	return df, decodeTable(encoded, e)
}

// matchEncoded finds the order of the rows of df, whose strings are encoded.
func matchEncoded(c *Case, df *dataframe.DataFrame, tab *Table, e enc) []int {
	encoded, ok := encodeTable(tab, e)
	if !ok {
		panic("not encodable")
	}
	return matchRows(c, df, encoded, seq(0, tab.n))
}

func TestC08_EncodingAndCPUSurvive(t *testing.T) {
	Prop(t, "a dataframe whose strings are in a random encoding goes through a chain of views, copies and concatenations; the result is compacted and decoded; non-trivial: the encoding is not UTF-8 and a string is left", 800, func(c *Case) {
		e := encodings[c.Int("encoding", 0, len(encodings)-1)]
		df, tab := genText(c, e)
		key := tab.names("s")[0]
		cpu := df.ActualMaxCPU()
		bare := c.Chance("strings are added later", 3)
		if bare {
			df.OverwriteInts("zz", seq(0, tab.n))
			df.Drop(tab.names("s")...)
			tab = tab.without(tab.names("s")...)
			ids := make([]interface{}, tab.n)
			for i := range ids {
				ids[i] = i
			}
			key, tab = "zz", tab.set("zz", 'i', ids)
			c.D("without strings: %s", tab)
		}
		df, tab = deriveText(c, df, tab, e, viewOpts{repeat: true, cols: true, keep: []string{key}, maxOps: 4, grow: 90})
		how := pick(c, "last", "plain", "rowconcat", "colconcat", "colcopy", "splitn", "hash", "top", "sample", "train", "reset", "merge columns", "merge rows", "shallow copy")
		c.D("last step: %s", how)
		var err error
		switch how {
		case "rowconcat":
			df, err = dataframe.RowConcat(df, df.ReverseView())
			tab = tab.rows(append(seq(0, tab.n), reversed(seq(0, tab.n))...))
		case "colconcat", "colcopy":
			rest := tab.without(key).all()
			if len(rest) == 0 {
				break
			}
			a, b := df.ColumnView(key), df.ColumnView(rest...)
			if c.Bool("strings last") {
				a, b = b, a
			}
			if how == "colconcat" {
				df, err = dataframe.ColumnConcatView(a, b)
			} else {
				df, err = dataframe.ColumnCopyConcat(a, b)
			}
		case "splitn":
			k := c.Int("n", 1, 5)
			parts := df.SplitNView(k)
			i := c.Int("part", 0, k-1)
			at := 0
			for _, p := range parts[:i] {
				at += p.NumRows()
			}
			df = parts[i]
			tab = tab.rows(seq(at, at+df.NumRows()))
		case "hash":
			if strs := tab.without(key).names("s"); len(strs) > 0 {
				df = df.HashStringsView(strs...)
				tab = tab.without(strs...)
				df.Drop(strs...)
			}
		case "top":
			if keys := tab.names("fib"); len(keys) > 0 {
				df = df.TopView(keys[0], tab.n, true, c.Bool("sorted"))
				tab = tab.rows(matchEncoded(c, df, tab, e))
			}
		case "sample":
			n := tab.n
			df = df.SampleView(n, false)
			tab = tab.rows(matchEncoded(c, df, tab, e))
		case "train":
			train, _ := df.SplitTrainTestViews(0.5)
			df = train
			tab = tab.rows(seq(0, train.NumRows()))
		case "merge columns":
			rest := tab.without(key).all()
			list := []*dataframe.RawData{&df.Copy().RawData}
			if len(rest) > 0 {
				list = []*dataframe.RawData{&df.ColumnView(key).Copy().RawData, &df.ColumnView(rest...).Copy().RawData}
			}
			df = dataframe.MergeRawDataColumns(list).ToDataFrame()
		case "merge rows":
			if tab.n > 0 {
				df = dataframe.MergeRawDataRows([]*dataframe.RawData{&df.Copy().RawData, &df.ReverseView().Copy().RawData}).ToDataFrame()
				tab = tab.rows(append(seq(0, tab.n), reversed(seq(0, tab.n))...))
			}
		case "shallow copy":
			df = df.ShallowCopy()
		case "reset":
			df = df.ResetIndexView()
			tab = tab.rows(matchEncoded(c, df, tab, e))
		}
		if err != nil {
			c.Bad("%s: %v", how, err)
		}
		if df.ActualMaxCPU() != cpu {
			c.Bad("the maximum number of CPUs was %d and is now %d", cpu, df.ActualMaxCPU())
		}
		encoded, ok := encodeTable(tab, e)
		if !ok {
			panic("not encodable")
		}
		c.expect("the derived dataframe", df, encoded)
		if bare && tab.n > 0 {
			// as many as there are rows, over and over
			df = df.Copy()
			strs, vals := make([]string, tab.n), make([]interface{}, tab.n)
			for i := range strs {
				s := e.ok[i%len(e.ok)]
				b, err := e.encode(s)
				if err != nil {
					panic(err)
				}
				strs[i], vals[i] = b, s
			}
			df.OverwriteStrings("late", strs)
			tab = tab.clone().set("late", 's', vals)
			key = "late"
		}
		// the encoding is only observable through a conversion
		df = df.DetachedView()
		if err := df.Encode(nil); err != nil {
			c.Bad("decoding the derived dataframe from %s: %v", e.name, err)
		}
		c.expect("the derived dataframe, decoded from "+e.name, df, tab)
		for _, v := range tab.cols[key].vals {
			if v != nil && e.e != nil {
				c.NT(true)
			}
		}
		c.L(e.name)
	})
}

func TestC09_Encode(t *testing.T) {
	Prop(t, "a dataframe with strings in a random encoding, possibly a detached view with repeated or hidden rows, is encoded up to 5 times into random encodings, some of which cannot represent its strings; non-trivial: at least one conversion changed bytes or was refused", 1200, func(c *Case) {
		e := encodings[c.Int("encoding", 0, len(encodings)-1)]
		df, tab := genText(c, e)
		if c.Bool("view") {
			key := tab.names("s")[0]
			df, tab = deriveText(c, df, tab, e, viewOpts{repeat: true, cols: true, keep: []string{key}, maxOps: 3, grow: 90})
			df = df.DetachedView()
			c.D("detached")
		}
		if c.Chance("no strings", 6) {
			c.D("drop the string columns")
			df.Drop(tab.names("s")...)
			tab = tab.without(tab.names("s")...)
		}
		cur, _ := encodeTable(tab, e)
		steps := c.Int("steps", 1, 5)
		for k := 0; k < steps; k++ {
			to := encodings[c.Int("to", 0, len(encodings)-1)]
			c.D("Encode(%s)", to.name)
			want, ok := encodeTable(tab, to)
			err := df.Encode(to.e)
			if !ok {
				if err == nil {
					c.Bad("Encode(%s) succeeds though some strings cannot be represented in it", to.name)
				}
				c.expect("after the refused conversion to "+to.name, df, cur)
				c.L("refused")
				c.NT(true)
				continue
			}
			if err != nil {
				c.Bad("Encode(%s) from %s: %v", to.name, e.name, err)
			}
			c.expect("after the conversion from "+e.name+" to "+to.name, df, want)
			if diff(want, cur) != "" {
				c.NT(true)
			}
			e, cur = to, want
		}
		if tab.n > 0 && c.Bool("add a column") {
			// a column added now is in the current encoding
			given := newTable(tab.n).set("added", 's', make([]interface{}, tab.n))
			for i := range given.cols["added"].vals {
				if k := c.Int("text", 0, len(e.ok)); k > 0 {
					given.cols["added"].vals[i] = e.ok[k-1]
				}
			}
			enc, ok := encodeTable(given, e)
			if !ok {
				panic("not encodable")
			}
			c.D("add a column %s", enc)
			df = df.DetachedView()
			overwrite(df, "added", 's', enc.cols["added"].vals)
			// rows that a view shows twice are one row of the new column
			o, err := observe(df)
			if err != nil {
				c.Bad("%v", err)
			}
			tab = tab.clone().set("added", 's', decodeTable(o.only([]string{"added"}), e).cols["added"].vals)
		}
		if err := df.Encode(nil); err != nil {
			c.Bad("Encode(nil) from %s: %v", e.name, err)
		}
		c.expect("back in UTF-8", df, tab)
	})
}

// Strings that are not valid in the declared encoding: an error leaves
// everything as it was, byte for byte.
func TestC09_AllOrNothing(t *testing.T) {
	Prop(t, "a dataframe that holds arbitrary bytes as strings is encoded; if Encode returns an error nothing may have changed, and the conversion may be retried on the rest; non-trivial: Encode returned an error", 600, func(c *Case) {
		tab := genTable(c, tabOpts{minCols: 1, maxCols: 4, force: pick(c, "force", "ss", "s", "sss"), minRows: 1, maxRows: 30})
		s := c.source(tab.n * 2)
		raw := []string{"a", "é", "\xe2\x1c\xa1\x00", "\xff\xfe", "日本", "고랭", "\x80", "ok", "\xed\xa0\x80"}
		declared := encodings[pick(c, "declared", 0, 0, 1, 4, 5, 2, 6, 8, 9)]
		if alt := redundant[declared.name]; alt != nil {
			raw = append([]string(nil), alt...)
			for _, t := range append([]string{"ｱ", "é", "Ж", "가", "文"}, declared.ok...) {
				if b, err := declared.encode(t); err == nil {
					raw = append(raw, b)
				}
			}
			raw = append(raw, "\xff", "\xb1", "a", "\x80")
		}
		for _, name := range tab.names("s") {
			m := len(raw)
			if s.n(3) > 0 {
				m = pick(c, "variety of "+name, 2, 4, 8)
			}
			for i := range tab.cols[name].vals {
				if s.n(9) == 0 {
					tab.cols[name].vals[i] = nil
				} else {
					tab.cols[name].vals[i] = raw[s.n(m)%len(raw)]
				}
			}
		}
		to := encodings[c.Int("to", 1, len(encodings)-1)]
		c.D("declared %s: %s", declared.name, tab)
		b := builderOf(tab, 1)
		if declared.e != nil {
			b = b.TextEncoding(declared.e)
		}
		df := b.ToDataFrame()
		df, tt := derive(c, df, tab, viewOpts{repeat: true, cols: true, keep: tab.names("s"), maxOps: 2, grow: 60})
		df = df.DetachedView()
		c.D("Encode(%s)", to.name)
		if err := df.Encode(to.e); err != nil {
			c.NT(true)
			c.expect("after the refused conversion", df, tt)
			// still declared in the same encoding
			if err := df.Encode(declared.e); err != nil {
				c.Bad("encoding into the current encoding after an error: %v", err)
			}
			c.expect("after encoding into the current encoding", df, tt)
		} else {
			// nothing but string columns changes
			got, err := observe(df)
			if err != nil {
				c.Bad("%v", err)
			}
			if d := diff(got.without(tt.names("s")...), tt.without(tt.names("s")...)); d != "" {
				c.Bad("Encode changed other columns: %s", d)
			}
			for _, name := range tt.names("s") {
				for i, v := range tt.cols[name].vals {
					if (v == nil) != (got.cols[name].vals[i] == nil) {
						c.Bad("Encode changed which strings are missing: column %q row %d", name, i)
					}
				}
			}
		}
	})
}

// Sizes only, for many numbers of rows and parts.
func TestC04_Sizes(t *testing.T) {
	Prop(t, "a dataframe of 0 to 6000 rows, often a multiple of the number of parts, is split into many different numbers of parts, sizes and fractions; every row must be there once, in order; non-trivial: at least 2 rows and 2 parts", 60, func(c *Case) {
		n := pick(c, "rows", c.Int("small", 0, 130), c.Int("large", 131, 6000))
		div := c.Int("divisor", 2, 150)
		if c.Chance("multiple", 2) {
			n -= n % div
		}
		t := newTable(n)
		vals := make([]interface{}, n)
		for i := range vals {
			vals[i] = i * 3
		}
		t.set("a", 'i', vals)
		df := build(c, t)
		if c.Bool("view") {
			df = df.IndexView(seq(0, n))
		}
		check := func(what string, parts []*dataframe.DataFrame) []int {
			at, sizes := 0, []int{}
			for i, p := range parts {
				a := p.Ints("a")
				for j := 0; j < p.NumRows(); j++ {
					if at+j >= n || a.Get(j) != (at+j)*3 {
						c.Bad("%s of %d rows: row %d of part %d has the value %d instead of %d", what, n, j, i, a.Get(j), (at+j)*3)
					}
				}
				at += p.NumRows()
				sizes = append(sizes, p.NumRows())
			}
			if at != n {
				c.Bad("%s: the parts have %d of %d rows", what, at, n)
			}
			return sizes
		}
		for try := 0; try < 24; try++ {
			k := pick(c, "parts", div, c.Int("some", 1, 150), c.Int("many", 1, n+3))
			c.D("%d rows, %d", n, k)
			parts := df.SplitNView(k)
			if len(parts) != k {
				c.Bad("SplitNView(%d) of %d rows returns %d parts", k, n, len(parts))
			}
			for i, s := range check(fmt.Sprintf("SplitNView(%d)", k), parts) {
				if s > (n+k-1)/k {
					c.Bad("SplitNView(%d) of %d rows: part %d has %d rows", k, n, i, s)
				}
			}
			sizes := check(fmt.Sprintf("SplitView(%d)", k), df.SplitView(k))
			for i, s := range sizes {
				if (i < len(sizes)-1 && s != k) || s > k || (s == 0 && n > 0) {
					c.Bad("SplitView(%d) of %d rows: part %d of %d has %d rows", k, n, i, len(sizes), s)
				}
			}
			ratio := pick(c, "ratio", float64(c.Int("of", 0, n))/math.Max(1, float64(n)), 1/float64(k), 1-1/float64(k), float64(c.Int("permille", 0, 1000))/1000)
			train, test := df.SplitTrainTestViews(ratio)
			check(fmt.Sprintf("SplitTrainTestViews(%v)", ratio), []*dataframe.DataFrame{train, test})
			if d := float64(test.NumRows()) - float64(n)*ratio; d > 1.0001 || d < -1.0001 {
				c.Bad("SplitTrainTestViews(%v) of %d rows: %d test rows", ratio, n, test.NumRows())
			}
			c.NT(n >= 2 && k >= 2)
		}
	})
}
