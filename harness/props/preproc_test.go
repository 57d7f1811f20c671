package props

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
)

// ------------------------------------------------------------------ helpers

// trainTest draws a dataframe to be transformed (with an id column) and one to
// train on: a view of the former, or an unrelated one with the same columns.
// It returns the view to fit on and its reference: all the columns or some.
func trainTest(c *Case, o tabOpts) (train *dataframe.DataFrame, trainT *Table, b frames) {
	b = genIDFrame(c, o, viewOpts{repeat: true, cols: true, maxOps: 3})
	if c.Bool("train on a view of the same data") {
		c.D("training rows:")
		train, trainT = derive(c, b.df, b.t, viewOpts{repeat: true, maxOps: 3})
	} else {
		t := newTable(genRows(c, 0, 600))
		long := c.Chance("long training set", 25)
		if long {
			t = newTable(c.Int("rows", 4000, 9500))
		}
		for _, name := range b.t.all() {
			if name != idCol && !(long && len(t.cols) >= 3) {
				t.set(name, b.t.cols[name].kind, genVals(c, b.t.cols[name].kind, t.n, &o))
			}
		}
		if t.n > 2 && (long && c.Bool("constant start") || c.Chance("constant start", 6)) {
			k := c.Int("same rows", t.n/2, t.n-1)
			missing := !o.noNaN && c.Bool("missing start")
			for _, col := range t.cols {
				if missing && col.kind == 'f' {
					col.vals[0] = math.NaN()
				}
				for i := 1; i < k; i++ {
					col.vals[i] = col.vals[0]
				}
			}
		}
		c.D("train on %s", t)
		train, trainT = derive(c, build(c, t), t, viewOpts{repeat: true, maxOps: 3})
	}
	if c.Bool("train on some columns") {
		if cols := subset(c, trainT.all()); len(cols) > 0 {
			c.D("fit on columns %q", cols)
			train, trainT = train.ColumnView(cols...), trainT.only(cols)
		}
	}
	return train, trainT.clone(), b
}

// present returns the values that are not missing.
func present(vals []interface{}) []float64 {
	var out []float64
	for _, v := range vals {
		if x := v.(float64); x == x {
			out = append(out, x)
		}
	}
	return out
}

// exactSum adds with compensation.
func exactSum(xs []float64) float64 {
	s, e := 0.0, 0.0
	for _, x := range xs {
		t := s + x
		if math.Abs(s) >= math.Abs(x) {
			e += (s - t) + x
		} else {
			e += (x - t) + s
		}
		s = t
	}
	return s + e
}

func maxAbs(xs []float64) float64 {
	m := 0.0
	for _, x := range xs {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

func mean(xs []float64) float64 {
	if len(xs) == 0 {
		return 0
	}
	return exactSum(xs) / float64(len(xs))
}

func std(xs []float64) float64 {
	m := mean(xs)
	sq := make([]float64, len(xs))
	for i, x := range xs {
		sq[i] = (x - m) * (x - m)
	}
	return math.Sqrt(mean(sq))
}

func near(a, b, tol float64) bool {
	if a != a || b != b {
		return a != a && b != b
	}
	return a == b || math.Abs(a-b) <= tol
}

func sameNames(a, b []string) bool {
	return fmt.Sprintf("%q", sortedCopy(a)) == fmt.Sprintf("%q", sortedCopy(b))
}

// expectNear checks that df reads as want, with float columns of `tol` being
// equal up to the given tolerance and all the rest exactly.
func (c *Case) expectNear(what string, df *dataframe.DataFrame, want *Table, tol map[string]float64) {
	c.Helper()
	got, err := observe(df)
	if err != nil {
		c.Bad("%s: %v", what, err)
	}
	want = want.clone()
	for name, e := range tol {
		g, ok := got.cols[name]
		if !ok || g.kind != 'f' || len(g.vals) != want.n {
			c.Bad("%s: column %q is not a float column of %d rows", what, name, want.n)
			return
		}
		for i, v := range g.vals {
			if w := want.cols[name].vals[i].(float64); !near(v.(float64), w, e) {
				c.Bad("%s: column %q row %d: %v instead of %v (±%g)", what, name, i, v, w, e)
			}
		}
		want.cols[name].vals = g.vals
	}
	if d := diff(got, want); d != "" {
		c.Bad("%s: %s\n  got  %s\n  want %s", what, d, clip(got.String(), 3000), clip(want.String(), 3000))
	}
}

// rowsOnly checks that, after an in-place change of the view b.df to `after`,
// the dataframe it was derived from changed in the rows of the view only.
func (c *Case) rowsOnly(b frames, after *Table) {
	c.Helper()
	got, err := observe(b.root)
	if err != nil {
		c.Bad("the underlying dataframe after the in-place change: %v", err)
	}
	if got.n != b.rootT.n || !sameNames(got.all(), b.rootT.all()) {
		c.Bad("the underlying dataframe has %d rows and columns %q after the in-place change, instead of %d and %q", got.n, got.all(), b.rootT.n, b.rootT.all())
	}
	where := map[int]int{}
	for j, id := range after.cols[idCol].vals {
		where[id.(int)] = j
	}
	for name, col := range got.cols {
		for i, v := range col.vals {
			if sameVal(v, b.rootT.cols[name].vals[i]) {
				continue
			}
			j, ok := where[i]
			if !ok {
				c.Bad("an in-place change of a view changed row %d of %q, which is not in the view", i, name)
			}
			if a, ok := after.cols[name]; ok && !sameVal(v, a.vals[j]) {
				c.Bad("row %d of %q is %s in the underlying dataframe and %s in the view", i, name, showVal(v), showVal(a.vals[j]))
			}
		}
	}
}

func must(c *Case, what string, err error) {
	c.Helper()
	if err != nil {
		c.Bad("%s returns an error: %v", what, err)
	}
}

// ----------------------------------------------------------------- C19 imputer

func TestC19_FloatImputer(t *testing.T) {
	Prop(t, "a FloatImputer is fitted on some columns of a view and applied in place to another view with more columns and repeated rows; non-trivial: a missing value is imputed and at least one is kept", 900, func(c *Case) {
		train, trainT, b := trainTest(c, tabOpts{force: "f", finite: false, noInf: true, kinds: "ffibso", maxCols: 5})
		policy := pick(c, "policy", preprocessing.Mean, preprocessing.Mean, preprocessing.Zero, preprocessing.One)
		imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: policy})
		if c.Chance("refit", 4) {
			other := buildPlain(newTable(2).set("unrelated", 'f', []interface{}{1.0, math.NaN()}), 2)
			must(c, "Fit", imp.Fit(other))
		}
		c.D("policy %d", policy)
		c.Risky()
		must(c, "Fit", imp.Fit(train))
		c.expect("the training data after Fit", train, trainT)
		cols := trainT.names("f")
		if !sameNames(imp.TransformedColumns(), cols) {
			c.Bad("TransformedColumns() is %q instead of %q", imp.TransformedColumns(), cols)
		}
		for _, name := range cols {
			if _, ok := b.t.cols[name]; !ok {
				c.Bad("test is wrong: no column %q", name)
			}
		}
		if c.Chance("infinite values", 3) && b.t.n > 0 {
			// they are not missing
			for _, name := range cols {
				i := c.Int("row", 0, b.t.n-1)
				x := math.Inf(c.Int("sign", 0, 1)*2 - 1)
				b.df.Floats(name).Set(i, x)
				b.t.writeCell(name, i, x)
			}
			b.rootT, _ = observe(b.root)
			b.t, _ = observe(b.df)
			c.D("infinite values: %s", b.t)
		}
		want := b.t.clone()
		tol := map[string]float64{}
		imputed, kept := 0, 0
		for _, name := range cols {
			xs := present(trainT.cols[name].vals)
			m := maxAbs(xs)
			neutral := 0.0
			switch {
			case policy == preprocessing.One:
				neutral = 1
			case policy == preprocessing.Mean && m < 1e290:
				neutral = mean(xs)
				tol[name] = 1e-9 * m
			case policy == preprocessing.Mean:
				c.L("mean might overflow")
				tol[name] = math.Inf(1)
			}
			for i, v := range want.cols[name].vals {
				if x := v.(float64); x != x {
					want.cols[name].vals[i] = neutral
					imputed++
				} else {
					kept++
				}
			}
		}
		must(c, "TransformInplace", imp.TransformInplace(b.df))
		for name, e := range tol {
			if math.IsInf(e, 1) {
				delete(tol, name)
				got := b.df.Floats(name)
				for i := range want.cols[name].vals {
					if x := b.t.cols[name].vals[i].(float64); x != x {
						want.cols[name].vals[i] = got.Get(i)
					}
				}
			}
		}
		// what was not missing is exactly as before
		for name := range tol {
			got := b.df.Floats(name)
			for i, v := range b.t.cols[name].vals {
				if x := v.(float64); x == x && i < got.Size() && got.Get(i) != x {
					c.Bad("row %d of %q was %v and is %v after imputing", i, name, x, got.Get(i))
				}
			}
		}
		c.expectNear("the imputed data", b.df, want, tol)
		after, _ := observe(b.df)
		c.rowsOnly(b, after)
		must(c, "TransformInplace again", imp.TransformInplace(b.df))
		c.expect("after imputing twice", b.df, after)
		c.NT(imputed > 0 && kept > 0)
	})
}

// ------------------------------------------------------------------ C20 scaler

type affine struct {
	shift, scale float64 // y = (x + shift) * scale
	tolIn        float64 // uncertainty of the shift
	relScale     float64 // relative uncertainty of the scale
	constant     bool    // all values are the same, or there is none
	ill          bool    // the spread is lost in the rounding of the values
}

// scaling is what a Scaler is defined to do to a column trained on xs.
func scaling(xs []float64, o preprocessing.ScalerOptions) affine {
	a := affine{scale: 1}
	if len(xs) == 0 {
		a.constant = true
		return a
	}
	m := maxAbs(xs)
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, x := range xs {
		lo, hi = math.Min(lo, x), math.Max(hi, x)
	}
	a.constant = lo == hi
	if o.MinMax {
		a.shift = -lo
		if hi > lo {
			a.scale = 1 / (hi - lo)
		}
		a.relScale = 1e-12
		a.tolIn = 1e-15 * m
		return a
	}
	if o.Centering {
		a.shift = -mean(xs)
	}
	a.tolIn = 1e-12 * m
	if o.Scaling && hi > lo {
		s := std(xs)
		a.ill = s < 1e-7*m
		a.scale = 1 / s
		a.relScale = 1e-9 + 1e-15*float64(len(xs))*m/s
	}
	return a
}

func TestC20_Scaler(t *testing.T) {
	Prop(t, "a Scaler with any options is fitted on some columns of a view, applied in place to another view with more columns and repeated rows, and inverted; non-trivial: a column with a spread is scaled, at least 2 rows", 900, func(c *Case) {
		train, trainT, b := trainTest(c, tabOpts{force: "f", finite: true, kinds: "ffibso", maxCols: 5})
		if c.Chance("constant column", 4) {
			// make the columns of the training set constant
			tt := trainT.clone()
			v := floatPool[c.Int("constant", 0, len(floatPool)-1)]
			for _, name := range tt.names("f") {
				for i, x := range tt.cols[name].vals {
					if x == x {
						tt.cols[name].vals[i] = v
					}
				}
			}
			c.D("all values of the training set are %v", v)
			train, trainT = buildPlain(tt, genCPU(c)), tt
			train, trainT = derive(c, train, trainT, viewOpts{repeat: true, maxOps: 1})
		} else {
			for _, name := range trainT.names("f") {
				if c.Chance("missing column", 12) {
					tt := trainT.clone()
					for i := range tt.cols[name].vals {
						tt.cols[name].vals[i] = math.NaN()
					}
					c.D("%q is missing", name)
					train, trainT = buildPlain(tt, genCPU(c)), tt
				}
			}
			if c.Bool("make some missing") {
				tt := trainT.clone()
				src := c.source(tt.n)
				for i := 0; i < tt.n; i++ {
					if src.n(4) == 0 {
						for _, name := range tt.names("f") {
							tt.cols[name].vals[i] = math.NaN()
						}
					}
				}
				c.D("train with missing values %s", tt)
				train, trainT = buildPlain(tt, genCPU(c)), tt
			}
		}
		o := pick(c, "options", preprocessing.ScalerOptions{Centering: true, Scaling: true},
			preprocessing.ScalerOptions{MinMax: true}, preprocessing.ScalerOptions{Centering: true}, preprocessing.ScalerOptions{Scaling: true},
			preprocessing.ScalerOptions{}, preprocessing.ScalerOptions{MinMax: true, Centering: true, Scaling: true})
		c.D("options %+v", o)
		c.Risky()
		sc := preprocessing.NewScaler(o)
		if c.Chance("refit", 4) {
			other := buildPlain(newTable(2).set("unrelated", 'f', []interface{}{1.0, 5.0}), 2)
			must(c, "Fit", sc.Fit(other))
		}
		must(c, "Fit", sc.Fit(train))
		c.expect("the training data after Fit", train, trainT)
		cols := trainT.names("f")
		if o == (preprocessing.ScalerOptions{}) {
			cols = nil
		}
		if !sameNames(sc.TransformedColumns(), cols) {
			c.Bad("TransformedColumns() is %q instead of %q", sc.TransformedColumns(), cols)
		}
		// on the training rows themselves
		own := train.DetachedView()
		must(c, "TransformInplace", sc.TransformInplace(own))
		c.expect("the training data after a detached view was scaled", train, trainT)
		for _, name := range cols {
			a := scaling(present(trainT.cols[name].vals), o)
			acc := own.Floats(name)
			vals := make([]interface{}, acc.Size())
			for i := range vals {
				vals[i] = acc.Get(i)
			}
			xs := present(vals)
			if len(xs) == 0 || a.ill {
				continue
			}
			if o.MinMax {
				lo, hi := math.Inf(1), math.Inf(-1)
				for _, x := range xs {
					lo, hi = math.Min(lo, x), math.Max(hi, x)
				}
				if !near(lo, 0, 1e-9) || (!a.constant && !near(hi, 1, 1e-9)) {
					c.Bad("min-max scaled column %q ranges from %v to %v", name, lo, hi)
				}
				continue
			}
			s := std(xs)
			if o.Centering && !near(mean(xs), 0, 1e-6*math.Max(1, s)+a.scale*1e-9*math.Abs(a.shift)) {
				c.Bad("centered column %q has mean %v", name, mean(xs))
			}
			if o.Scaling && !a.constant && !near(s, 1, 1e-8+2*a.relScale) {
				c.Bad("scaled column %q has standard deviation %v", name, s)
			}
		}
		// some of the rows to be scaled miss values
		if c.Bool("transform missing values") && b.t.n > 0 {
			for _, name := range b.t.names("f") {
				i := c.Int("row", 0, b.t.n-1)
				b.df.Floats(name).Set(i, math.NaN())
				b.t.writeCell(name, i, math.NaN())
			}
			b.rootT, _ = observe(b.root)
		}
		want, back := b.t.clone(), b.t.clone()
		tol, tolBack := map[string]float64{}, map[string]float64{}
		spread := false
		aff := map[string]affine{}
		for _, name := range cols {
			xs := present(trainT.cols[name].vals)
			a := scaling(xs, o)
			aff[name] = a
			if a.ill {
				c.L("ill-conditioned column")
			}
			spread = spread || (!a.constant && !a.ill)
			m := math.Max(maxAbs(xs), maxAbs(present(b.t.cols[name].vals)))
			dev := 0.0
			for i, v := range b.t.cols[name].vals {
				x := v.(float64) + a.shift
				if x == x {
					dev = math.Max(dev, math.Abs(x))
				}
				want.cols[name].vals[i] = x * a.scale
			}
			tol[name] = a.scale*(a.tolIn+1e-15*m) + a.scale*dev*a.relScale
			tolBack[name] = 1e-9 * m
		}
		must(c, "TransformInplace", sc.TransformInplace(b.df))
		for _, name := range cols {
			if a := aff[name]; a.constant && !o.MinMax && o.Scaling || a.ill {
				// the factor of a constant column is not specified: it is the
				// same finite positive number for all the rows
				got := b.df.Floats(name)
				factor := math.NaN()
				for i, v := range b.t.cols[name].vals {
					x := v.(float64) + a.shift
					y := got.Get(i)
					if x != x {
						continue
					}
					if math.IsNaN(y) || math.IsInf(y, 0) {
						c.Bad("row %d of the constant column %q becomes %v", i, name, y)
					}
					if !a.ill && math.Abs(x) > 1e-6*math.Max(1, math.Abs(v.(float64))) && factor != factor {
						if factor = y / x; !(factor > 0) {
							c.Bad("row %d of the constant column %q is %v and becomes %v", i, name, v, y)
						}
					}
				}
				for i, v := range b.t.cols[name].vals {
					x := v.(float64) + a.shift
					if a.ill || factor != factor {
						if x == x {
							want.cols[name].vals[i] = got.Get(i)
						}
						if !a.ill && o.Centering && x == 0 && got.Get(i) != 0 {
							c.Bad("row %d of the constant column %q has the mean value and becomes %v", i, name, got.Get(i))
						}
						continue
					}
					want.cols[name].vals[i] = x * factor
				}
				if !a.ill && factor == factor {
					m := math.Max(math.Abs(a.shift), maxAbs(present(b.t.cols[name].vals)))
					tol[name] = 1e-6 * factor * m
				}
			}
		}
		c.expectNear("the scaled data", b.df, want, tol)
		after, _ := observe(b.df)
		c.rowsOnly(b, after)
		must(c, "InverseTransformInplace", sc.InverseTransformInplace(b.df))
		c.expectNear("the data after the inverse transformation", b.df, back, tolBack)
		c.NT(spread && b.t.n >= 2 && trainT.n >= 2)
	})
}

// ----------------------------------------------------------------- C21 one-hot

var catValues = []int{0, 1, 2, 3, 7, -2, 100, 1 << 40, math.MinInt64}
var unkValues = []int{50, 51, -50, math.MaxInt64}

type catSet struct {
	vals        []int
	missing     bool
	mode        map[int]bool // the most frequent categories
	trainCounts map[int]int
}

func catOf(vals []interface{}) catSet {
	s := catSet{trainCounts: map[int]int{}, mode: map[int]bool{}}
	for _, v := range vals {
		if v.(int) == -1 {
			s.missing = true
		} else {
			s.trainCounts[v.(int)]++
		}
	}
	best := 0
	for v, k := range s.trainCounts {
		s.vals = append(s.vals, v)
		if k > best {
			best = k
		}
	}
	sort.Ints(s.vals)
	for v, k := range s.trainCounts {
		if k == best {
			s.mode[v] = true
		}
	}
	return s
}

func genCategories(c *Case, n int, pool []int, missing bool) []interface{} {
	s := c.source(n)
	out := make([]interface{}, n)
	for i := range out {
		switch r := s.n(8); {
		case r == 0 && missing:
			out[i] = -1
		case r < 4:
			out[i] = pool[0]
		default:
			out[i] = pool[s.n(len(pool))]
		}
	}
	return out
}

// trueColumns lists the new columns that are true at each row.
func trueColumns(t *Table, newCols map[string]bool) [][]string {
	out := make([][]string, t.n)
	for _, name := range sortedKeys(newCols) {
		for i, v := range t.cols[name].vals {
			if v.(bool) {
				out[i] = append(out[i], name)
			}
		}
	}
	return out
}

func TestC21_OneHot(t *testing.T) {
	Prop(t, "a OneHotEncoder with any policies is fitted on a view and applied to probes that differ in one category each (this tells which new column stands for which category) and to another view with unknown and missing categories; non-trivial: at least 2 categories and 2 rows, no error", 900, func(c *Case) {
		cats := subset(c, []string{"p", pick(c, "second", "q", "p_q", "p1", "p_1"), "r"})
		if len(cats) == 0 {
			cats = []string{"p"}
		}
		mp := pick(c, "missing policy", preprocessing.SeparateCategoryIfSeen, preprocessing.SharedSeparateCategory, preprocessing.SeparateCategory, preprocessing.ImputeWithMostFrequent, preprocessing.ReturnError)
		up := pick(c, "unknown policy", preprocessing.SeparateCategoryIfSeen, preprocessing.SharedSeparateCategory, preprocessing.SeparateCategory, preprocessing.ImputeWithMostFrequent, preprocessing.ReturnError)
		shared := mp == preprocessing.SharedSeparateCategory || up == preprocessing.SharedSeparateCategory
		if shared && (mp == preprocessing.ReturnError || up == preprocessing.ReturnError) {
			up, mp = preprocessing.SharedSeparateCategory, preprocessing.SeparateCategory
		}
		keep := c.Bool("keep used columns")
		enc := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: mp, UnknownPolicy: up, KeepUsedColumns: keep})
		c.D("categorical %q, missing policy %d, unknown policy %d, keep %v", cats, mp, up, keep)

		// training data, with other columns that must not matter
		train := genTable(c, tabOpts{kinds: "fbso", maxCols: 2, minRows: 1, maxRows: 100000})
		trainMissing := c.Bool("missing in training")
		manyCats := false
		pools := map[string][]int{}
		for _, name := range cats {
			k := c.Int("categories", 1, len(catValues))
			off := c.Int("offset", 0, len(catValues)-1)
			for i := 0; i < k; i++ {
				pools[name] = append(pools[name], catValues[(off+i)%len(catValues)])
			}
			few := name == "p" && contains(cats, "p1") && c.Bool("two digits")
			if few || sizeCap >= 9 && !manyCats && c.Chance("many categories", 40) {
				m := 12
				if !few {
					manyCats = true
					m = pick(c, "how many", 20, 65, 130, 257, 300, 520)
				}
				for i := 0; i < m; i++ {
					pools[name] = append(pools[name], 1000+i)
				}
			}
			if len(pools[name]) > len(catValues) && train.n < 3*len(pools[name]) {
				more := make([]int, 3*len(pools[name]))
				for i := range more {
					more[i] = i % train.n
				}
				train = train.rows(more)
			}
			vals := genCategories(c, train.n, pools[name], trainMissing)
			switch {
			case len(pools[name]) > len(catValues):
				for i, v := range pools[name] {
					vals[i] = v
				}
			case trainMissing && c.Chance("all missing in training", 15):
				for i := range vals {
					vals[i] = -1
				}
			}
			train.set(name, 'i', vals)
		}
		c.D("train on %s", train)
		tdf, tt := derive(c, build(c, train), train, viewOpts{repeat: true, maxOps: 2, minRows: 1})
		sets, unknown := map[string]catSet{}, map[string][]int{}
		for _, name := range cats {
			s := catOf(tt.cols[name].vals)
			if len(s.vals) == 0 {
				hopeless := mp == preprocessing.ReturnError && up == preprocessing.ReturnError
				if hopeless || !s.missing || mp == preprocessing.ImputeWithMostFrequent || up == preprocessing.ImputeWithMostFrequent {
					c.L("no category in training: skipped")
					return
				}
				c.L("no category in training")
			}
			sets[name] = s
			// also those of other columns, rows that are not in the view, and
			// previous trainings
			unknown[name] = append([]int(nil), unkValues...)
			for _, v := range catValues {
				if s.trainCounts[v] == 0 {
					unknown[name] = append(unknown[name], v)
				}
			}
		}
		fitted := tdf
		if c.Bool("column view") {
			fitted = tdf.ColumnView(cats...)
		}
		if c.Chance("refit", 4) {
			other := newTable(3).set("unrelated", 'i', []interface{}{1, 5, 1})
			for _, name := range cats {
				if c.Bool("refit " + name) {
					a := catValues[c.Int("old category", 0, len(catValues)-1)]
					b := catValues[c.Int("old category 2", 0, len(catValues)-1)]
					other.set(name, 'i', []interface{}{a, pick(c, "old", a, b, -1), b})
				}
			}
			c.D("first fitted on %s", other)
			must(c, "Fit", enc.Fit(buildPlain(other, 2)))
		}
		c.Risky()
		must(c, "Fit", enc.Fit(fitted))
		c.expect("the training data after Fit", tdf, tt)
		if !sameNames(enc.TransformedColumns(), cats) {
			c.Bad("TransformedColumns() is %q instead of %q", enc.TransformedColumns(), cats)
		}

		// transform applies the encoder and checks what every result must be
		apply := func(what string, df *dataframe.DataFrame, t *Table) (*Table, map[string]bool) {
			c.Risky()
			res, err := enc.TransformView(df)
			c.expect(what+": the dataframe itself", df, t)
			fail := ""
			for _, name := range cats {
				for _, v := range t.cols[name].vals {
					if v.(int) == -1 {
						if mp == preprocessing.ReturnError {
							fail = "a missing category"
						}
					} else if sets[name].trainCounts[v.(int)] == 0 && up == preprocessing.ReturnError {
						fail = "an unknown category"
					}
				}
			}
			if (err != nil) != (fail != "") {
				c.Bad("%s: TransformView returns error %v; expected: %q", what, err, fail)
			}
			if err != nil {
				c.L("error")
				return nil, nil
			}
			got, e := observe(res)
			if e != nil {
				c.Bad("%s: %v", what, e)
			}
			newCols := map[string]bool{}
			for _, n := range enc.NewColumns {
				if newCols[n] {
					c.Bad("NewColumns lists %q twice", n)
				}
				newCols[n] = true
			}
			rest := got.clone()
			for n := range newCols {
				g, ok := got.cols[n]
				if !ok || g.kind != 'b' || t.cols[n] != nil {
					c.Bad("%s: the new column %q is not a new boolean column", what, n)
				}
				delete(rest.cols, n)
			}
			want := t.clone()
			if !keep {
				want = want.without(cats...)
			}
			if d := diff(rest, want); d != "" {
				c.Bad("%s, the other columns: %s", what, d)
			}
			for i, names := range trueColumns(got, newCols) {
				if len(names) != len(cats) {
					c.Bad("%s: row %d (%s) has the true columns %q: not exactly one per categorical column", what, i, t.row(i), names)
				}
			}
			return got, newCols
		}

		// probes: one row per column and category, the rest as in the first row
		type cv struct {
			name string
			v    int
		}
		probe := newTable(0)
		row := map[string]int{}
		for _, name := range cats {
			switch {
			case len(sets[name].vals) > 0:
				row[name] = sets[name].vals[0]
			case mp != preprocessing.ReturnError:
				row[name] = -1
			default:
				row[name] = unkValues[0]
			}
			probe.set(name, 'i', nil)
		}
		var which []cv
		add := func(name string, v int) {
			for _, n := range cats {
				x := row[n]
				if n == name {
					x = v
				}
				probe.cols[n].vals = append(probe.cols[n].vals, x)
			}
			probe.n++
			which = append(which, cv{name, v})
		}
		for _, name := range cats {
			for _, v := range sets[name].vals {
				add(name, v)
			}
			if mp != preprocessing.ReturnError {
				add(name, -1)
			}
			if up != preprocessing.ReturnError {
				for _, v := range unknown[name] {
					add(name, v)
				}
			}
		}
		got, newCols := apply("probe", build(c, probe), probe)
		tc := trueColumns(got, newCols)
		has := func(l []string, x string) bool { return contains(l, x) }
		owned := map[string]map[string]bool{}
		owner := map[string]string{}
		own := func(col, name string) {
			if o, ok := owner[col]; ok && o != name {
				c.Bad("the new column %q depends on both %q and %q", col, o, name)
			}
			owner[col] = name
			if owned[name] == nil {
				owned[name] = map[string]bool{}
			}
			owned[name][col] = true
		}
		base := tc[0] // the first probe has all the base categories
		for k, w := range which {
			d := 0
			for _, col := range tc[k] {
				if !has(base, col) {
					own(col, w.name)
					d++
				}
			}
			for _, col := range base {
				if !has(tc[k], col) {
					own(col, w.name)
				}
			}
			if d > 1 {
				c.Bad("changing %q to %d changes %d new columns: %q, %q", w.name, w.v, d, base, tc[k])
			}
		}
		stands := map[cv]string{}
		for k, w := range which {
			for _, col := range tc[k] {
				if owned[w.name][col] {
					if s, ok := stands[w]; ok && s != col {
						c.Bad("category %d of %q has two new columns %q and %q", w.v, w.name, s, col)
					}
					stands[w] = col
				}
			}
			if len(owned[w.name]) == 0 {
				stands[w] = "the only one"
			}
			if stands[w] == "" {
				c.Bad("category %d of %q has no new column of its own among %q", w.v, w.name, tc[k])
			}
		}
		nonTrivial := false
		for _, name := range cats {
			s := sets[name]
			seen := map[string]int{}
			for _, v := range s.vals {
				col := stands[cv{name, v}]
				if o, ok := seen[col]; ok {
					c.Bad("categories %d and %d of %q share the new column %q", o, v, name, col)
				}
				seen[col] = v
			}
			nonTrivial = nonTrivial || len(s.vals) > 1
			isMode := func(col string) bool {
				v, ok := seen[col]
				return ok && s.mode[v]
			}
			mis, unk := stands[cv{name, -1}], stands[cv{name, unkValues[0]}]
			for _, v := range unknown[name] {
				if stands[cv{name, v}] != unk {
					c.Bad("unknown categories of %q have different columns", name)
				}
			}
			_, misIsCat := seen[mis]
			_, unkIsCat := seen[unk]
			mpe, upe := mp, up
			if mp == preprocessing.SharedSeparateCategory && up != preprocessing.SharedSeparateCategory {
				mpe, upe = up, mp
			}
			switch mpe {
			case preprocessing.SeparateCategory:
				if misIsCat {
					c.Bad("missing values of %q have the column of category %d", name, seen[mis])
				}
			case preprocessing.ImputeWithMostFrequent:
				if !isMode(mis) {
					c.Bad("missing values of %q are not imputed with the most frequent category %v but have column %q, of category %d (counts %v)", name, s.mode, mis, seen[mis], s.trainCounts)
				}
			case preprocessing.SeparateCategoryIfSeen:
				if s.missing && misIsCat {
					c.Bad("missing values of %q were seen but have the column of category %d", name, seen[mis])
				}
				if !s.missing && !isMode(mis) {
					c.Bad("missing values of %q were not seen and have column %q instead of the most frequent category's", name, mis)
				}
			}
			switch upe {
			case preprocessing.SeparateCategory, preprocessing.SeparateCategoryIfSeen:
				if unkIsCat {
					c.Bad("unknown values of %q have the column of category %d", name, seen[unk])
				}
				if mp != preprocessing.ReturnError && unk == mis {
					c.Bad("unknown and missing values of %q share the column %q", name, unk)
				}
			case preprocessing.SharedSeparateCategory:
				if unk != mis {
					c.Bad("unknown values of %q have column %q, missing ones %q: not shared", name, unk, mis)
				}
			case preprocessing.ImputeWithMostFrequent:
				if !isMode(unk) {
					c.Bad("unknown values of %q are not imputed with the most frequent category but have column %q", name, unk)
				}
			}
		}

		// other data
		o := tabOpts{kinds: "fibso", maxCols: 3, maxRows: 100000, names: []string{"a", "b", "c", "é"}}
		if manyCats {
			o.maxRows = 600
		}
		data := genTable(c, o)
		withUnk := c.Bool("unknown categories")
		for _, name := range cats {
			pool := append([]int(nil), sets[name].vals...)
			if withUnk || len(pool) == 0 {
				pool = append(pool, unkValues[:c.Int("unknowns", 1, 4)]...)
			}
			data.set(name, 'i', genCategories(c, data.n, pool, c.Bool("missing")))
		}
		c.D("transform %s", data)
		df, dt := derive(c, build(c, data), data, viewOpts{repeat: true, maxOps: 3})
		if got, newCols = apply("data", df, dt); got == nil {
			return
		}
		for i, names := range trueColumns(got, newCols) {
			for _, name := range cats {
				v := dt.cols[name].vals[i].(int)
				if v != -1 && sets[name].trainCounts[v] == 0 {
					v = unkValues[0]
				}
				col := stands[cv{name, v}]
				if col != "the only one" && !has(names, col) {
					c.Bad("row %d has category %d of %q, whose column is %q, but the true columns are %q", i, dt.cols[name].vals[i], name, col, names)
				}
			}
		}
		c.NT(nonTrivial && dt.n >= 2)
	})
}

// ------------------------------------------------------- C22 AutoPreprocessor

// indicator renders which rows belong to a class.
func indicator(n int, in func(i int) bool) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0'
		if in(i) {
			b[i] = '1'
		}
	}
	return string(b)
}

func TestC22_AutoPreprocessor(t *testing.T) {
	Prop(t, "an AutoPreprocessor with any options and excluded columns is trained and applied in both ways (FitTransform, Fit + TransformView), to the training data and to other data; non-trivial: floats and categories are transformed and a column is excluded, at least 2 rows", 700, func(c *Case) {
		o := tabOpts{kinds: "ffsibo", minCols: 1, maxCols: 6, minRows: 1, maxRows: 100000, distinct: 250, finite: true, names: append(plainNames[:6:6], "é", "x y", "A", "B", "É", "a ", "aa"), force: pick(c, "force", "fs", "", "fsi", "fi", "s")}
		train := genTable(c, o)
		addNaN := func(t *Table) {
			src := c.source(t.n)
			for _, name := range t.names("f") {
				for i := 0; i < t.n; i++ {
					if src.n(6) == 0 {
						t.cols[name].vals[i] = math.NaN()
					}
				}
			}
		}
		if c.Bool("missing floats") {
			addNaN(train)
		}
		c.D("train on %s", train)
		tdf, tt := derive(c, build(c, train), train, viewOpts{repeat: true, maxOps: 3, minRows: 1})
		opt := preprocessing.AutoPreprocOptions{Imputing: c.Bool("imputing"), Scaling: c.Bool("scaling"), Verbose: c.Chance("verbose", 5)}
		if c.Chance("exclude", 2) {
			opt.Exclude = subset(c, tt.all())
			if c.Chance("exclude unknown", 5) {
				opt.Exclude = append(opt.Exclude, "no such column")
			}
		}
		c.D("options %+v", opt)

		included := tt.without(opt.Exclude...)
		floats := included.names("f")
		if !opt.Imputing && !opt.Scaling {
			floats = nil
		}
		cats := included.names("s")
		if len(cats) == 0 {
			cats = included.names("i")
		}
		classOf := func(v interface{}) interface{} { // the category of a value, nil if missing
			if v == -1 {
				return nil
			}
			return v
		}
		type class struct {
			counts  map[interface{}]int
			missing bool
			modes   map[interface{}]bool
		}
		classes := map[string]class{}
		for _, name := range cats {
			cl := class{counts: map[interface{}]int{}, modes: map[interface{}]bool{}}
			best := 0
			for _, v := range tt.cols[name].vals {
				if v = classOf(v); v == nil {
					cl.missing = true
					continue
				}
				cl.counts[v]++
				best = int(math.Max(float64(best), float64(cl.counts[v])))
			}
			for v, k := range cl.counts {
				if k == best {
					cl.modes[v] = true
				}
			}
			classes[name] = cl
		}

		check := func(what string, res *dataframe.DataFrame, in *Table) {
			got, err := observe(res)
			if err != nil {
				c.Bad("%s: %v", what, err)
			}
			want := in.without(cats...)
			tol := map[string]float64{}
			for _, name := range floats {
				xs := present(tt.cols[name].vals)
				a := affine{scale: 1}
				if opt.Scaling {
					a = scaling(xs, preprocessing.ScalerOptions{Centering: true, Scaling: true})
				}
				m := math.Max(maxAbs(xs), maxAbs(present(in.cols[name].vals)))
				if (a.constant && opt.Scaling) || a.ill {
					// factor unspecified: the values must be finite or missing
					g := got.cols[name]
					if g == nil || g.kind != 'f' {
						c.Bad("%s: %q is not a float column", what, name)
					}
					for i, v := range g.vals {
						if x := v.(float64); math.IsInf(x, 0) || (x != x) != (in.cols[name].vals[i].(float64) != in.cols[name].vals[i].(float64) && !opt.Imputing) {
							c.Bad("%s: row %d of the constant column %q becomes %v", what, i, name, x)
						}
						if x := in.cols[name].vals[i].(float64); !a.ill && (x == -a.shift || (x != x && opt.Imputing)) && math.Abs(v.(float64)) > 1e-9 {
							c.Bad("%s: row %d of the constant column %q becomes %v", what, i, name, v)
						}
					}
					want.cols[name].vals = g.vals
					continue
				}
				vals := make([]interface{}, in.n)
				for i, v := range in.cols[name].vals {
					x := v.(float64)
					if x != x && opt.Imputing {
						x = mean(xs)
					}
					vals[i] = (x + a.shift) * a.scale
				}
				want.cols[name].vals = vals
				tol[name] = a.scale*(a.tolIn+1e-11*m) + a.scale*2*m*a.relScale
			}
			// the new columns
			newCols := map[string]bool{}
			for name, col := range got.cols {
				if want.cols[name] == nil {
					if col.kind != 'b' {
						c.Bad("%s: unexpected column %q", what, name)
					}
					newCols[name] = true
					want.set(name, 'b', col.vals)
				}
			}
			c.expectNear(what, res, want, tol)
			for i, names := range trueColumns(got, newCols) {
				if len(names) != len(cats) {
					c.Bad("%s: row %d (%s) has the true columns %q: not one for each of %q", what, i, in.row(i), names, cats)
				}
			}
			// each new column stands for one category of one column
			var wantV, gotV []string
			ambiguous := false
			for _, name := range cats {
				cl := classes[name]
				vals := in.cols[name].vals
				other := func(i int) bool { v := classOf(vals[i]); return v == nil || cl.counts[v] == 0 }
				var mode interface{}
				if !cl.missing {
					for v := range cl.modes {
						mode = v
					}
					if len(cl.modes) > 1 {
						for i := range vals {
							ambiguous = ambiguous || other(i)
						}
					}
				} else {
					wantV = append(wantV, indicator(in.n, other))
				}
				for v := range cl.counts {
					wantV = append(wantV, indicator(in.n, func(i int) bool {
						return classOf(vals[i]) == v || (!cl.missing && v == mode && other(i))
					}))
				}
			}
			for name := range newCols {
				vals := got.cols[name].vals
				gotV = append(gotV, indicator(in.n, func(i int) bool { return vals[i].(bool) }))
			}
			if len(gotV) != len(wantV) {
				c.Bad("%s: %d new columns instead of %d", what, len(gotV), len(wantV))
			}
			if ambiguous {
				c.L("several most frequent categories")
				return
			}
			if a, b := strings.Join(sortedCopy(gotV), "\n"), strings.Join(sortedCopy(wantV), "\n"); a != b {
				c.Bad("%s: the new columns do not stand for the categories of %q:\n%s\ninstead of\n%s", what, cats, clip(a, 1500), clip(b, 1500))
			}
		}
		checkCols := func(p *preprocessing.AutoPreprocessor) {
			if l := p.TransformedColumns(); !sameNames(l, append(append([]string(nil), floats...), cats...)) {
				c.Bad("TransformedColumns() is %q instead of %q and %q", l, floats, cats)
			}
		}

		p := preprocessing.NewAutoPreprocessor(opt)
		if c.Chance("train before on other data", 4) {
			other := buildPlain(newTable(3).set("zf", 'f', []interface{}{1.0, 2.0, 3.0}).set("zs", 's', []interface{}{"x", "y", nil}), 2)
			c.D("trained before")
			if c.Bool("FitTransform") {
				p.FitTransform(other)
			} else {
				must(c, "Fit", p.Fit(other))
			}
		}
		c.Risky()
		res := p.FitTransform(tdf)
		if res == tdf {
			c.Bad("FitTransform returns the dataframe itself")
		}
		check("FitTransform", res, tt)
		c.expect("the training data after FitTransform", tdf, tt)
		checkCols(p)
		q := preprocessing.NewAutoPreprocessor(opt)
		must(c, "Fit", q.Fit(tdf))
		c.expect("the training data after Fit", tdf, tt)
		checkCols(q)
		if c.Bool("serialize") {
			js, err := json.Marshal(q)
			must(c, "json.Marshal", err)
			q = &preprocessing.AutoPreprocessor{}
			must(c, "json.Unmarshal", json.Unmarshal(js, &q))
			checkCols(q)
		}
		res, err := q.TransformView(tdf)
		must(c, "TransformView", err)
		check("Fit + TransformView", res, tt)
		c.expect("the training data after TransformView", tdf, tt)

		// other data with the same columns
		data := newTable(genRows(c, 0, 200))
		for _, name := range tt.all() {
			data.set(name, tt.cols[name].kind, genVals(c, tt.cols[name].kind, data.n, &o))
		}
		addNaN(data)
		for i, k := 0, c.Int("extra columns", 0, 2); i < k; i++ {
			kind := Kind(pick(c, "kind", []byte("fibs")...))
			data.set(fmt.Sprintf("extra%d", i), kind, genVals(c, kind, data.n, &o))
		}
		c.D("transform %s", data)
		df, dt := derive(c, build(c, data), data, viewOpts{repeat: true, maxOps: 3})
		for _, pp := range []*preprocessing.AutoPreprocessor{p, q} {
			res, err = pp.TransformView(df)
			must(c, "TransformView", err)
			check("TransformView of other data", res, dt)
			c.expect("the other data after TransformView", df, dt)
		}
		c.NT(tt.n >= 2 && len(floats) > 0 && len(cats) > 0 && len(included.cols) < len(tt.cols))
	})
}
