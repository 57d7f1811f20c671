package props

import (
	"math/rand"
	"testing"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

const ruleC01 = "a table of mixed column types is drawn, put in a random internal state by a chain of views, and one row-selecting view is taken; non-trivial: at least 2 rows and 1 column, and the selection is not the identity"

func anyCols() tabOpts { return tabOpts{minCols: 1, maxCols: 5} }

func identity(idx []int, n int) bool {
	if len(idx) != n {
		return false
	}
	for i, v := range idx {
		if i != v {
			return false
		}
	}
	return true
}

// checkView compares a view with the selection idx of t, and checks that
// taking the view changed neither the dataframe nor the root.
func checkView(c *Case, f frames, view *dataframe.DataFrame, idx []int) {
	c.Helper()
	c.expect("the view", view, f.t.rows(idx))
	if len(idx) <= 200 {
		c.expect("a copy of the view", view.Copy(), f.t.rows(idx))
		if k := len(idx) / 2; k > 0 {
			c.expect("a slice of the view", view.SliceView(k, len(idx)), f.t.rows(idx[k:]))
		}
	}
	c.expect("the dataframe after taking the view", f.df, f.t)
	c.expect("the original dataframe after taking the view", f.root, f.rootT)
	c.NT(f.t.n >= 2 && len(f.t.cols) > 0 && !identity(idx, f.t.n))
}

func TestC01_IndexView(t *testing.T) {
	Prop(t, ruleC01, 700, func(c *Case) {
		f := genFrame(c, anyCols(), viewOpts{repeat: true, cols: true})
		idx := genIndices(c, f.t.n, true)
		c.D("IndexView(%s)", showIdx(idx))
		given := append([]int(nil), idx...)
		v := f.df.IndexView(given)
		if len(idx) > f.t.n {
			c.L("larger than its parent")
		}
		checkView(c, f, v, idx)
		// the view does not depend on the caller's slice afterwards
		for i := range given {
			given[i] = 0
		}
		c.expect("the view after reusing the index slice", v, f.t.rows(idx))
		// views compose
		idx2 := genIndices(c, len(idx), true)
		c.D("then IndexView(%s)", showIdx(idx2))
		comp := make([]int, len(idx2))
		for j, i := range idx2 {
			comp[j] = idx[i]
		}
		c.expect("the view of the view", v.IndexView(idx2), f.t.rows(comp))
		c.expect("the first view after the second", v, f.t.rows(idx))
	})
}

func TestC01_SliceView(t *testing.T) {
	Prop(t, ruleC01, 1000, func(c *Case) {
		f := genFrame(c, anyCols(), viewOpts{repeat: true, cols: true})
		n := f.t.n
		from := c.Int("from", 0, n)
		to := c.Int("to", 0, n)
		argFrom, argTo := from, to
		// -k is relative to the end: -1 is one past the last row, as the end of
		// a slice is excluded
		if c.Chance("neg from", 3) {
			argFrom = from - n - 1
		}
		if c.Chance("neg to", 3) {
			argTo = to - n - 1
		}
		c.D("SliceView(%d,%d) of %d rows", argFrom, argTo, n)
		var idx []int
		if from <= to {
			idx = seq(from, to)
		} else {
			idx = reversed(seq(to, from))
			c.L("reversed")
		}
		if argFrom < 0 || argTo < 0 {
			c.L("negative")
		}
		v := f.df.SliceView(argFrom, argTo)
		checkView(c, f, v, idx)
		// slices compose
		m := len(idx)
		a := c.Int("from2", 0, m)
		b := c.Int("to2", a, m)
		c.D("then SliceView(%d,%d)", a, b)
		c.expect("the slice of the slice", v.SliceView(a, b), f.t.rows(idx[a:b]))
		c.expect("the first slice after the second", v, f.t.rows(idx))
	})
}

func TestC01_MaskView(t *testing.T) {
	Prop(t, ruleC01, 700, func(c *Case) {
		f := genFrame(c, anyCols(), viewOpts{repeat: true, cols: true})
		n := f.t.n
		var mask []bool
		mode := pick(c, "mask", "own", "zero", "empty", "short")
		switch mode {
		case "own":
			mask = make([]bool, n)
		case "zero":
			mask = f.df.ZeroMask()
		case "empty":
			mask = f.df.EmptyMask()
		case "short":
			mask = make([]bool, c.Int("len", 0, n))
		}
		if mode != "short" && len(mask) != n {
			c.Bad("the %s mask has %d elements for %d rows", mode, len(mask), n)
		}
		s := c.source(n)
		keep := s.n(3)
		idx := []int{}
		for i := range mask {
			mask[i] = s.n(3) <= keep
			if mask[i] {
				idx = append(idx, i)
			}
		}
		c.D("MaskView(%s mask keeping %s)", mode, showIdx(idx))
		given := append([]bool(nil), mask...)
		v := f.df.MaskView(mask)
		for i := range mask {
			if mask[i] != given[i] {
				c.Bad("MaskView changed the mask at %d", i)
			}
		}
		checkView(c, f, v, idx)
		for i := range mask {
			mask[i] = !mask[i]
		}
		c.expect("the view after reusing the mask", v, f.t.rows(idx))
	})
}

func TestC01_ReverseResetView(t *testing.T) {
	Prop(t, ruleC01, 500, func(c *Case) {
		f := genFrame(c, anyCols(), viewOpts{repeat: true, cols: true})
		rev := reversed(seq(0, f.t.n))
		c.D("ReverseView, ReverseView twice, ResetIndexView, View")
		v := f.df.ReverseView()
		checkView(c, f, v, rev)
		c.expect("reversing twice", v.ReverseView(), f.t)
		c.expect("View()", f.df.View(), f.t)
		c.expect("ShallowCopy()", f.df.ShallowCopy(), f.t)
		c.expect("Copy()", f.df.Copy(), f.t)
		c.expect("DetachedView()", f.df.DetachedView(), f.t)
		// ResetIndexView may change the order, and nothing else
		matchRows(c, f.df.ResetIndexView(), f.t, seq(0, f.t.n))
		c.expect("the dataframe after resetting the indices of a view", f.df, f.t)
	})
}

func TestC01_Shuffle(t *testing.T) {
	Prop(t, ruleC01, 600, func(c *Case) {
		f := genFrame(c, anyCols(), viewOpts{repeat: true, cols: true})
		n := f.t.n
		seed := int64(c.Int("seed", 0, 1<<30))
		c.D("ShuffleView with rand.Seed(%d)", seed)
		rand.Seed(seed)
		v := f.df.ShuffleView()
		idx := matchRows(c, v, f.t, seq(0, n))
		checkView(c, f, v, idx)
		// same seed, same order
		rand.Seed(seed)
		c.expect("a second shuffle with the same seed", f.df.ShuffleView(), f.t.rows(idx))
		k := c.Int("sample", 0, n)
		c.D("SampleView(%d)", k)
		s := f.df.SampleView(k, false)
		got, err := observe(s)
		if err != nil {
			c.Bad("SampleView: %v", err)
		}
		if got.n != k {
			c.Bad("SampleView(%d) has %d rows", k, got.n)
		}
		// every sampled row is a distinct row of the dataframe
		left := map[string]int{}
		for i := 0; i < n; i++ {
			left[f.t.row(i)]++
		}
		for i := 0; i < k; i++ {
			r := got.row(i)
			if left[r] == 0 {
				c.Bad("SampleView(%d): row %s appears more often than in the dataframe", k, r)
			}
			left[r]--
		}
		if d := diff(got.rows(nil), f.t.rows(nil)); d != "" {
			c.Bad("SampleView: %s", d)
		}
		c.expect("the dataframe after sampling", f.df, f.t)
		if f.df.SampleView(n, false).NumRows() != n {
			c.Bad("sampling all the rows loses some")
		}
	})
}

// Shuffling is random: no row is privileged. The bounds are such that a
// uniform shuffle fails with a probability below 1e-12.
func TestC01_ShuffleIsRandom(t *testing.T) {
	Prop(t, "a small dataframe is shuffled and sampled under 300 successive states of the global source; non-trivial: at least 3 rows", 12, func(c *Case) {
		n := c.Int("rows", 2, 6)
		c.D("%d rows, 300 shuffles and samples", n)
		vals := seq(0, n)
		df := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddInts("id", vals...).ToDataFrame()
		first := make([]map[int]bool, n)
		for i := range first {
			first[i] = map[int]bool{}
		}
		size := c.Int("sample size", 1, n)
		sampled := make([]map[int]bool, size)
		for i := range sampled {
			sampled[i] = map[int]bool{}
		}
		for k := 0; k < 300; k++ {
			a := df.ShuffleView().Ints("id")
			for i := 0; i < n; i++ {
				first[i][a.Get(i)] = true
			}
			b := df.SampleView(size, false).Ints("id")
			for i := range sampled {
				sampled[i][b.Get(i)] = true
			}
		}
		for i := range first {
			if len(first[i]) != n {
				c.Bad("over 300 shuffles, position %d only ever held rows %v of %d", i, first[i], n)
			}
		}
		for i := range sampled {
			if len(sampled[i]) != n {
				c.Bad("over 300 samples of %d rows, position %d only ever held rows %v of %d", size, i, sampled[i], n)
			}
		}
		c.NT(n >= 3)
	})
}
