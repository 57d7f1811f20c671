package props

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"testing"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
)

// ----------------------------------------------- a component of any kind

// component is a preprocessor or a model in a common form.
type component struct {
	name    string
	fit     func(df *dataframe.DataFrame) error
	apply   func(df *dataframe.DataFrame) (*dataframe.DataFrame, error)
	inverse func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) // may be nil
	cols    func() []string
	reload  func() error // through JSON
	outputs []string     // columns that are created or replaced, besides cols()
	drops   bool         // cols() are not part of the output
	anyRows bool         // the order of the rows of the output is not specified
	// diverged tells that the training did not end with numbers, as when the
	// learning rate is too large for the data (JSON has no Inf and NaN)
	diverged func() bool
}

func roundTrip(from, to interface{}) error {
	js, err := json.Marshal(from)
	if err != nil {
		return err
	}
	return json.Unmarshal(js, to)
}

// inplace turns an in-place transformation into one that returns a view.
func inplace(f func(df *dataframe.DataFrame) error, cols func() []string) func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) {
	return func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) {
		names := cols()
		view := df.View()
		if len(names) > 0 {
			view = df.DetachedView(names...)
		}
		return view, f(view)
	}
}

func genComponent(c *Case, kind string, target string) *component {
	k := &component{name: kind}
	switch kind {
	case "imputer":
		x := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: pick(c, "policy", preprocessing.Mean, preprocessing.Zero, preprocessing.One)})
		k.fit = x.Fit
		k.cols = func() []string { return x.TransformedColumns() }
		k.apply = inplace(func(df *dataframe.DataFrame) error { return x.TransformInplace(df) }, k.cols)
		k.reload = func() error {
			y := &preprocessing.FloatImputer{}
			err := roundTrip(x, &y)
			x = y
			return err
		}
	case "scaler":
		o := preprocessing.ScalerOptions{Centering: c.Bool("centering"), Scaling: c.Bool("scaling"), MinMax: c.Chance("minmax", 3)}
		c.D("%+v", o)
		x := preprocessing.NewScaler(o)
		k.fit = func(df *dataframe.DataFrame) error { return x.Fit(df) }
		k.cols = func() []string { return x.TransformedColumns() }
		k.apply = inplace(func(df *dataframe.DataFrame) error { return x.TransformInplace(df) }, k.cols)
		k.inverse = inplace(func(df *dataframe.DataFrame) error { return x.InverseTransformInplace(df) }, k.cols)
		k.reload = func() error {
			y := &preprocessing.Scaler{}
			err := roundTrip(x, &y)
			x = y
			return err
		}
	case "hash":
		x := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		k.fit = func(df *dataframe.DataFrame) error { return x.Fit(df) }
		k.cols = func() []string { return x.TransformedColumns() }
		k.apply = func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) { return x.TransformView(df) }
		k.reload = func() error {
			y := &preprocessing.HashEncoder{}
			err := roundTrip(x, &y)
			x = y
			return err
		}
	case "onehot":
		o := preprocessing.OneHotOptions{
			MissingPolicy:   pick(c, "mp", preprocessing.SeparateCategory, preprocessing.SharedSeparateCategory, preprocessing.SeparateCategory),
			UnknownPolicy:   pick(c, "up", preprocessing.SeparateCategory, preprocessing.SeparateCategoryIfSeen),
			KeepUsedColumns: c.Chance("keep", 3),
		}
		c.D("%+v", o)
		x := preprocessing.NewOneHotEncoder(o)
		k.drops = !o.KeepUsedColumns
		k.fit = func(df *dataframe.DataFrame) error {
			err := x.Fit(df)
			k.outputs = x.NewColumns
			return err
		}
		k.cols = func() []string { return x.TransformedColumns() }
		k.apply = func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) { return x.TransformView(df) }
		k.reload = func() error {
			y := &preprocessing.OneHotEncoder{}
			err := roundTrip(x, &y)
			x = y
			k.outputs = x.NewColumns
			return err
		}
	case "auto", "auto fit transform":
		o := preprocessing.AutoPreprocOptions{Imputing: c.Bool("imputing"), Scaling: c.Bool("scaling"), Exclude: subset(c, []string{"a", "b"})}
		c.D("%+v", o)
		x := preprocessing.NewAutoPreprocessor(o)
		k.fit = func(df *dataframe.DataFrame) error {
			if kind == "auto" {
				return x.Fit(df)
			}
			x.FitTransform(df)
			return nil
		}
		k.cols = func() []string { return x.TransformedColumns() }
		k.apply = func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) { return x.TransformView(df) }
		k.reload = func() error {
			y := &preprocessing.AutoPreprocessor{}
			err := roundTrip(x, &y)
			x = y
			return err
		}
	case "regressor":
		x := algorithms.NewLinearRegressor()
		k.fit = func(df *dataframe.DataFrame) error {
			return x.Fit(df, target, algorithms.LinRegTrainParams{Epochs: 2, LR: 1e-5, BatchSize: 16, LowMemory: c.Bool("low memory")})
		}
		k.cols = func() []string { return append([]string(nil), x.Features...) }
		result := pick(c, "result column", "y_pred", target, "a", "_target")
		c.D("result column %q", result)
		k.outputs = []string{result}
		k.anyRows = true
		k.diverged = func() bool {
			for _, w := range x.Weights {
				if math.IsInf(w, 0) || math.IsNaN(w) {
					return true
				}
			}
			return false
		}
		k.apply = func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) { return x.Predict(df, result) }
		k.reload = func() error {
			y := &algorithms.LinearRegressor{}
			err := roundTrip(x, &y)
			x = y
			return err
		}
	}
	return k
}

var componentKinds = []string{"imputer", "scaler", "hash", "onehot", "auto", "auto fit transform", "regressor"}

// componentData draws a dataframe that the component can be fitted on and one
// with more columns that it can be applied to.
func componentData(c *Case, kind string) (train *dataframe.DataFrame, trainT *Table, b frames) {
	o := tabOpts{kinds: "ffiibbsso", minCols: 1, maxCols: 6, maxRows: 100000, distinct: 250, finite: true, names: append(plainNames[:7:7], "é", "x y")}
	switch kind {
	case "regressor":
		o.force, o.minRows = "ffb", 1
	case "onehot":
		o.force, o.minRows = "i", 1
	case "hash":
		o.force = "s"
	case "imputer", "scaler":
		o.force, o.kinds = "ff", "ffiibbsso"
	default:
		o.force, o.minRows = "fsi", 1
	}
	c.D("%s", kind)
	base := genTable(c, o)
	if kind != "regressor" {
		src := c.source(base.n)
		for i := 0; i < base.n; i++ {
			for _, name := range base.names("f") {
				if src.n(8) == 0 {
					base.cols[name].vals[i] = math.NaN()
				}
			}
		}
	}
	c.D("train on %s", base)
	train, trainT = derive(c, build(c, base), base, viewOpts{repeat: true, maxOps: 3, minRows: o.minRows})
	if c.Bool("other data") {
		data := newTable(genRows(c, 0, 200))
		for _, name := range trainT.all() {
			data.set(name, trainT.cols[name].kind, genVals(c, trainT.cols[name].kind, data.n, &o))
		}
		for i, k := 0, c.Int("extra columns", 0, 2); i < k; i++ {
			kd := Kind(pick(c, "kind", []byte("fibso")...))
			data.set(fmt.Sprintf("extra%d", i), kd, genVals(c, kd, data.n, &o))
		}
		c.D("apply to %s", data)
		b.rootT = data
		b.root = build(c, data)
	} else {
		b.rootT = trainT.clone()
		b.root = train
	}
	b.df, b.t = derive(c, b.root, b.rootT, viewOpts{repeat: true, maxOps: 3})
	return train, trainT.clone(), b
}

// ---------------------------------------------------------------- C23 purity

func TestC23_Purity(t *testing.T) {
	Prop(t, "preprocessors and the regressor are fitted on a view and applied to another view; afterwards all that they return is overwritten; the caller's dataframes are re-read after every step; non-trivial: at least 2 rows and a column that is passed through", 900, func(c *Case) {
		kind := pick(c, "component", componentKinds...)
		train, trainT, b := componentData(c, kind)
		target := ""
		if kind == "regressor" {
			fl := trainT.names("f")
			target = fl[c.Int("target", 0, len(fl)-1)]
		}
		k := genComponent(c, kind, target)
		if kind == "onehot" {
			for _, name := range trainT.names("i") {
				if len(catOf(trainT.cols[name].vals).vals) == 0 {
					return
				}
			}
		}
		c.Risky()
		must(c, "Fit", k.fit(train))
		c.expect("the training data after Fit", train, trainT)
		c.expect("the parent of the data after Fit", b.root, b.rootT)
		passes := 0
		run := func(what string, f func(df *dataframe.DataFrame) (*dataframe.DataFrame, error)) {
			res, err := f(b.df)
			must(c, what, err)
			if res == b.df {
				c.Bad("%s returns the dataframe it was given", what)
			}
			c.expect("the dataframe after "+what, b.df, b.t)
			c.expect("its parent after "+what, b.root, b.rootT)
			c.expect("the training data after "+what, train, trainT)
			// all the other columns are passed through
			used := map[string]bool{}
			for _, n := range append(k.cols(), k.outputs...) {
				used[n] = true
			}
			if k.anyRows {
				for _, n := range k.cols() {
					delete(used, n)
				}
				for _, n := range k.outputs {
					used[n] = true
				}
			}
			pass := b.t.without(sortedKeys(used)...)
			got, err := observe(res)
			if err != nil {
				c.Bad("the result of %s: %v", what, err)
			}
			if got.n != b.t.n {
				c.Bad("the result of %s has %d rows instead of %d", what, got.n, b.t.n)
			}
			for _, n := range pass.all() {
				if g := got.cols[n]; g == nil || g.kind != pass.cols[n].kind {
					c.Bad("column %q is not in the result of %s: %q", n, what, got.all())
				}
			}
			if k.anyRows {
				matchRows(c, res.ColumnView(append(pass.all(), got.names("f")[:0]...)...).ShallowCopy(), passOrAll(pass, got), seq(0, b.t.n))
			} else if d := diff(got.only(pass.all()), pass); d != "" {
				c.Bad("the columns that %s does not concern: %s", what, d)
			}
			passes = len(pass.all())
			// what has been computed can be overwritten without consequence
			for _, n := range got.all() {
				if g := got.cols[n]; got.n > 0 {
					vals := make([]interface{}, got.n)
					for i := range vals {
						vals[i] = map[Kind]interface{}{'f': 77.5, 'i': 77, 'b': true, 's': "changed", 'o': 77}[g.kind]
					}
					if b.t.cols[n] == nil || g.kind != b.t.cols[n].kind || isComputed(k, n) {
						overwrite(res, n, g.kind, vals)
					}
				}
			}
			c.expect("the dataframe after the result of "+what+" was changed", b.df, b.t)
			c.expect("its parent after the result of "+what+" was changed", b.root, b.rootT)
			c.expect("the training data after the result of "+what+" was changed", train, trainT)
		}
		run("the transformation", k.apply)
		if k.inverse != nil {
			run("the inverse transformation", k.inverse)
		}
		run("the second transformation", k.apply)
		c.L(kind)
		c.NT(b.t.n >= 2 && passes > 0)
	})
}

// passOrAll: a column view of no columns shows all of them.
func passOrAll(pass, got *Table) *Table {
	if len(pass.cols) == 0 {
		return got
	}
	return pass
}

// isComputed tells whether the component has computed the column: it is then
// newly allocated in the result.
func isComputed(k *component, name string) bool {
	if contains(k.outputs, name) {
		return true
	}
	return !k.anyRows && contains(k.cols(), name) && k.name != "onehot"
}

// ------------------------------------------------------------------ C24 JSON

func TestC24_JSON(t *testing.T) {
	Prop(t, "a fitted preprocessor or regressor is written to JSON and read back; it must report the same columns and transform (and invert) random views to the same dataframe; non-trivial: at least one column is transformed in at least 2 rows", 900, func(c *Case) {
		kind := pick(c, "component", componentKinds...)
		train, trainT, b := componentData(c, kind)
		target := ""
		if kind == "regressor" {
			fl := trainT.names("f")
			target = fl[c.Int("target", 0, len(fl)-1)]
		}
		k := genComponent(c, kind, target)
		if kind == "onehot" {
			for _, name := range trainT.names("i") {
				if len(catOf(trainT.cols[name].vals).vals) == 0 {
					return
				}
			}
		}
		c.Risky()
		must(c, "Fit", k.fit(train))
		c.L(kind)
		if k.diverged != nil && k.diverged() {
			c.L("diverged")
			return
		}
		cols := sortedCopy(k.cols())
		first, err := k.apply(b.df)
		must(c, "the transformation", err)
		want, e := observe(first)
		if e != nil {
			c.Bad("%v", e)
		}
		var wantInv *Table
		if k.inverse != nil {
			inv, err := k.inverse(b.df)
			must(c, "the inverse transformation", err)
			wantInv, _ = observe(inv)
		}
		for i, n := 0, c.Int("times", 1, 2); i < n; i++ {
			must(c, "the JSON round trip", k.reload())
			if !sameNames(k.cols(), cols) {
				c.Bad("after the JSON round trip, the columns are %q instead of %q", k.cols(), cols)
			}
			second, err := k.apply(b.df)
			must(c, "the transformation after the JSON round trip", err)
			c.expect("the result after the JSON round trip", second, want)
			if k.inverse != nil {
				inv, err := k.inverse(b.df)
				must(c, "the inverse transformation after the JSON round trip", err)
				c.expect("the result of the inverse transformation after the JSON round trip", inv, wantInv)
			}
		}
		c.NT(len(cols) > 0 && b.t.n >= 2)
	})
}

// Models made by hand have weights that training hardly gives.
func TestC24_Models(t *testing.T) {
	Prop(t, "a regressor with any finite weights, zeros and tiny ones among them, is written to JSON and read back; it must have the same features and predict the same on a view with values of any magnitude; non-trivial: at least 2 features", 400, func(c *Case) {
		f := genFrame(c, tabOpts{kinds: "ffib", force: "f", minCols: 1, maxCols: 7, minRows: 1, maxRows: 60, names: append(plainNames[:7:7], "_target", "é", "a b", "<&>")}, viewOpts{repeat: true, maxOps: 3})
		features := f.t.names("fib")
		if f.t.n == 0 {
			return
		}
		m, _ := genModel(c, features)
		for i := range m.Weights {
			if c.Bool("odd weight") {
				m.Weights[i] = pick(c, "weight", 0, math.Copysign(0, -1), 1e-14, -1e-20, 1e-300, math.SmallestNonzeroFloat64, 1, -1, 1e300, 1.0/3, math.MaxFloat64)
			}
		}
		for col := range m.TargetScaler.Scale {
			if c.Bool("odd scaler") {
				m.TargetScaler.Scale[col] = pick(c, "scale", 1, 1e-12, 1e12, 1.0/3)
				m.TargetScaler.Shift[col] = pick(c, "shift", 0, 1e-14, -1e15, 0.1)
			}
		}
		c.D("features %q, weights %v, scaler %v %v", m.Features, m.Weights, m.TargetScaler.Shift, m.TargetScaler.Scale)
		// one row at a time: large terms hide small ones
		rows := []*dataframe.DataFrame{f.df}
		for _, name := range f.t.names("f") {
			one := newTable(1)
			for _, other := range features {
				switch f.t.cols[other].kind {
				case 'i':
					one.set(other, 'i', []interface{}{0})
				case 'b':
					one.set(other, 'b', []interface{}{false})
				default:
					one.set(other, 'f', []interface{}{0.0})
				}
			}
			one.cols[name].vals[0] = pick(c, "value", 1e15, 1, 1e300, -1e20, math.Inf(1), math.NaN())
			rows = append(rows, build(c, one))
		}
		c.Risky()
		var want []*Table
		for _, df := range rows {
			p, err := m.Predict(df, "prediction")
			must(c, "Predict", err)
			o, e := observe(p)
			if e != nil {
				c.Bad("%v", e)
			}
			want = append(want, o)
		}
		names := sortedCopy(m.Features)
		for i, n := 0, c.Int("times", 1, 2); i < n; i++ {
			r := algorithms.NewLinearRegressor()
			must(c, "the JSON round trip", roundTrip(m, r))
			m = r
			if !sameNames(m.Features, names) {
				c.Bad("the reloaded regressor has the features %q instead of %q", m.Features, names)
			}
			for k, df := range rows {
				p, err := m.Predict(df, "prediction")
				must(c, "Predict", err)
				c.expect("the prediction of the reloaded regressor", p, want[k])
			}
		}
		c.NT(len(features) >= 2)
	})
}

// --------------------------------------------------------------- C25 predict

// genModel makes a regressor by hand; predict is what it is defined to return
// for a row of features.
func genModel(c *Case, features []string) (*algorithms.LinearRegressor, func(x []float64) (y, tol float64)) {
	m := algorithms.NewLinearRegressor()
	m.Features = features
	src := c.source(len(features) + 2)
	coef := func() float64 { return genCell(src, 'f', &tabOpts{finite: true, noNaN: true}).(float64) }
	for range features {
		w := coef()
		if w > 1e6 || w < -1e6 {
			w = 1.5
		}
		if src.n(5) == 0 {
			w = 0
		}
		m.Weights = append(m.Weights, w)
	}
	shift, scale := coef(), math.Abs(coef())
	if scale < 1e-3 || scale > 1e3 {
		scale = 1
	}
	m.TargetScaler = &preprocessing.Scaler{Shift: map[string]float64{"_target": shift}, Scale: map[string]float64{"_target": scale}}
	c.D("weights %v, target shift %v, scale %v", clip(fmt.Sprint(m.Weights), 400), shift, scale)
	return m, func(x []float64) (float64, float64) {
		terms := make([]float64, len(x))
		abs := 0.0
		for i := range x {
			terms[i] = x[i] * m.Weights[i]
			abs += math.Abs(terms[i])
		}
		y := exactSum(terms)/scale - shift
		return y, 1e-11*(abs/scale+math.Abs(shift)) + 1e-300
	}
}

func TestC25_Predict(t *testing.T) {
	Prop(t, "a regressor with random weights predicts on a view with numeric features of any type, other columns and possibly a column named like the result; every row must get its own prediction; non-trivial: at least 2 different rows", 900, func(c *Case) {
		f := genIDFrame(c, tabOpts{kinds: "ffibso", force: "f", finite: true, maxCols: 6, names: append(plainNames[:7:7], "_target", "y")}, viewOpts{repeat: true, cols: true, maxOps: 3})
		feats := f.t.names("fib")
		var features []string
		for _, n := range feats {
			if n != idCol && (c.Bool("use") || len(features) == 0) {
				features = append(features, n)
			}
		}
		if len(features) == 0 {
			return
		}
		rand.New(rand.NewSource(int64(c.Int("feature order", 0, 1000)))).Shuffle(len(features), func(i, j int) { features[i], features[j] = features[j], features[i] })
		// large integers are not meant here
		for _, n := range features {
			if f.t.cols[n].kind == 'f' && f.t.n > 0 && c.Chance("missing", 4) {
				i := c.Int("row", 0, f.t.n-1)
				f.df.Floats(n).Set(i, math.NaN())
				f.t.writeCell(n, i, math.NaN())
			}
			if f.t.cols[n].kind == 'i' {
				for i, v := range f.t.cols[n].vals {
					if x := v.(int); x > 1<<40 || x < -1<<40 {
						f.df.Ints(n).Set(i, 3)
						f.t.writeCell(n, i, 3)
					}
				}
			}
		}
		f.rootT, _ = observe(f.root)
		m, predict := genModel(c, features)
		result := pick(c, "result", "y_pred", "y", "_target", features[0], idCol+"2")
		if t0 := f.t.cols[result]; t0 != nil && t0.kind != 'f' {
			result = "y_pred" // a result column of another type: see DESIGN.md
		}
		c.D("features %q, result %q", features, result)
		if c.Bool("reload") {
			must(c, "json", roundTrip(m, &m))
		}
		c.Risky()
		res, err := m.Predict(f.df, result)
		must(c, "Predict", err)
		c.expect("the dataframe after Predict", f.df, f.t)
		c.expect("its parent after Predict", f.root, f.rootT)
		got, err := observe(res)
		if err != nil {
			c.Bad("the result of Predict: %v", err)
		}
		col := got.cols[result]
		if col == nil || col.kind != 'f' {
			c.Bad("the result of Predict has no float column %q: %q", result, got.all())
		}
		// the rows, in any order, each with its own prediction
		rest := f.t.without(result)
		if !sameNames(got.without(result).all(), rest.all()) {
			c.Bad("the result of Predict has the columns %q instead of %q and %q", got.all(), rest.all(), result)
		}
		perm := matchRows(c, resultWithout(res, got, result), rest, seq(0, f.t.n))
		distinct := map[int]bool{}
		for j, i := range perm {
			x := make([]float64, len(features))
			for k, n := range features {
				x[k] = asFloat(f.t.cols[n].vals[i])
			}
			y, tol := predict(x)
			if g := col.vals[j].(float64); !near(g, y, tol) {
				c.Bad("row %d (features %v) is predicted %v instead of %v (±%g)", j, x, g, y, tol)
			}
			distinct[f.t.cols[idCol].vals[i].(int)] = true
		}
		c.NT(len(distinct) >= 2)
	})
}

// resultWithout hides a column.
func resultWithout(res *dataframe.DataFrame, got *Table, name string) *dataframe.DataFrame {
	v := res.View()
	v.Drop(name)
	return v
}

func TestC25_Batches(t *testing.T) {
	// features share a few slices, so that the many columns cost little
	Prop(t, "Predict on so many features that it works in batches of 32 rows; non-trivial: more than one batch", 1, func(c *Case) {
		nf := pick(c, "features", 70000, 131072, 140000)
		batch := 4194304 / nf
		if batch < 32 {
			batch = 32
		}
		n := pick(c, "rows", batch+1, 2*batch, 2*batch+7, batch, batch-1)
		c.D("%d features, %d rows", nf, n)
		b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
		b.RawData.SetMaxCPU(2)
		kinds := 5
		slices := make([][]float64, kinds)
		for k := range slices {
			slices[k] = make([]float64, n)
			for i := range slices[k] {
				slices[k][i] = float64((i*7+k*k*3+i*k)%23) - 9
			}
		}
		m := algorithms.NewLinearRegressor()
		eff := make([]float64, kinds) // the sum of the weights by slice
		for i := 0; i < nf; i++ {
			name := fmt.Sprintf("f%d", i)
			b.SetFloats(name, slices[i%kinds])
			w := float64(i%13)/8 - 0.5
			m.Features = append(m.Features, name)
			m.Weights = append(m.Weights, w)
			eff[i%kinds] += w
		}
		ids := make([]int, n)
		for i := range ids {
			ids[i] = i
		}
		b.SetInts("row", ids)
		m.TargetScaler = &preprocessing.Scaler{Shift: map[string]float64{"_target": 0.25}, Scale: map[string]float64{"_target": 2}}
		df := b.ToDataFrame()
		switch c.Int("view", 0, 2) {
		case 1:
			df = df.ReverseView()
		case 2:
			df = df.IndexView(append(seq(n/2, n), seq(0, n/2)...))
		}
		res, err := m.Predict(df, "y")
		must(c, "Predict", err)
		if res.NumRows() != n {
			c.Bad("Predict returns %d rows instead of %d", res.NumRows(), n)
		}
		y, id := res.Floats("y"), res.Ints("row")
		seen := map[int]bool{}
		for j := 0; j < n; j++ {
			i := id.Get(j)
			if i < 0 || i >= n || seen[i] {
				c.Bad("row %d of the result is row %d of the data, again", j, i)
			}
			seen[i] = true
			want := 0.0
			for k := range slices {
				want += eff[k] * slices[k][i]
			}
			want = want/2 - 0.25
			if !near(y.Get(j), want, 1e-6*(1+math.Abs(want))) {
				c.Bad("row %d of the data is predicted %v instead of %v", i, y.Get(j), want)
			}
		}
		c.NT(n > batch)
	})
}

// ------------------------------------------------------------------- C26 fit

// linearData draws centered features and a target that depends on them
// linearly, without noise.
func linearData(c *Case) (t *Table, features []string, target string, sd float64) {
	n := c.Int("rows", 60, 200)
	k := c.Int("features", 1, 3)
	r := rand.New(rand.NewSource(int64(rapid32(c))))
	t = newTable(n)
	y := make([]float64, n)
	onehot := c.Bool("one-hot pair")
	for j := 0; j < k; j++ {
		xs := make([]float64, n)
		for i := range xs {
			xs[i] = r.NormFloat64()
		}
		m, s := mean(xs), std(xs)
		w := float64(r.Intn(9)-4) + 0.5
		vals := make([]interface{}, n)
		for i := range xs {
			xs[i] = (xs[i] - m) / s
			vals[i] = xs[i]
			y[i] += w * xs[i]
		}
		name := plainNames[j]
		t.set(name, 'f', vals)
		features = append(features, name)
	}
	if onehot {
		a, b := make([]interface{}, n), make([]interface{}, n)
		w := float64(r.Intn(5)) - 1.5
		for i := range a {
			v := r.Intn(2) == 0
			a[i], b[i] = v, !v
			if v {
				y[i] += w
			}
		}
		t.set("is", 'b', a).set("is not", 'b', b)
		features = append(features, "is", "is not")
	}
	off := float64(r.Intn(2000) - 1000)
	mult := math.Pow(10, float64(r.Intn(5)-2))
	vals := make([]interface{}, n)
	for i := range y {
		y[i] = off + mult*y[i]
		vals[i] = y[i]
	}
	target = pick(c, "target", "target", "y", "k")
	t.set(target, 'f', vals)
	// columns that are no features
	for i, e := 0, c.Int("other columns", 0, 2); i < e; i++ {
		kind := Kind(pick(c, "kind", []byte("iso")...))
		t.set(fmt.Sprintf("other%d", i), kind, genVals(c, kind, n, &tabOpts{}))
	}
	return t, features, target, std(y)
}

func rapid32(c *Case) int { return c.Int("seed", 0, 1<<30) }

func TestC26_Learns(t *testing.T) {
	Prop(t, "Fit is run on a view of noiseless linear data with standardized features (and one-hot pairs), with learning rates that converge; predictions on the training rows and on other rows must meet the target; non-trivial: always", 20, func(c *Case) {
		tab, features, target, sd := linearData(c)
		df := build(c, tab)
		tt := tab
		if c.Bool("view") {
			perm := rand.New(rand.NewSource(int64(rapid32(c)))).Perm(tab.n)
			df, tt = df.IndexView(perm), tab.rows(perm)
		}
		bs := pick(c, "batch", 16, 64, 1, 7, 1000, 0)
		eff := bs
		if eff == 0 {
			eff = 64
		}
		if eff > tab.n {
			eff = tab.n
		}
		mom := pick(c, "momentum", 0.0, 0.3, 0.5)
		// stable for correlated features too: the largest eigenvalue of a
		// batch is at most eff * (number of features) * (largest row norm)
		lr := 0.1 / float64(eff*len(features)) * (1 - mom)
		epochs := 400 * eff / tab.n * len(features)
		if epochs < 60 {
			epochs = 60
		}
		p := algorithms.LinRegTrainParams{Epochs: epochs, LR: lr, BatchSize: bs, Momentum: mom, LowMemory: c.Bool("low memory"), Verbose: c.Chance("verbose", 4)}
		c.D("%s\nfeatures %q target %q %+v", tt, features, target, p)
		m := algorithms.NewLinearRegressor()
		c.Risky()
		must(c, "Fit", m.Fit(df, target, p))
		c.expect("the data after Fit", df, tt)
		if !sameNames(m.Features, features) {
			c.Bad("Features is %q instead of %q", m.Features, features)
		}
		res, err := m.Predict(df, "y_pred")
		must(c, "Predict", err)
		y, z := res.Floats(target), res.Floats("y_pred")
		worst := 0.0
		for i := 0; i < y.Size(); i++ {
			worst = math.Max(worst, math.Abs(y.Get(i)-z.Get(i))/sd)
		}
		if !(worst < 0.02) {
			c.Bad("after training, a prediction is off by %g standard deviations of the target", worst)
		}
		if e := algorithms.MAE(z, y); !(e < 0.02*sd) {
			c.Bad("after training, the mean absolute error is %v; the target's standard deviation is %v", e, sd)
		}
		c.L("worst<1e-%d", int(math.Min(9, -math.Log10(worst+1e-12))))
		c.NT(true)
	})
}

// fitOnce trains with a fixed global seed.
func fitOnce(c *Case, df *dataframe.DataFrame, target string, p algorithms.LinRegTrainParams, seed int64) *algorithms.LinearRegressor {
	m := algorithms.NewLinearRegressor()
	rand.Seed(seed)
	must(c, "Fit", m.Fit(df, target, p))
	return m
}

func TestC26_Steps(t *testing.T) {
	// a learning rate too small to change anything shows the initial weights
	// for a seed; full batches make the order of the rows irrelevant
	Prop(t, "Fit with one or a few full batches (any learning rate, momentum and decay) against a reference gradient descent from the same initial weights; 0 must act as the default value; non-trivial: at least 2 rows and 2 steps", 500, func(c *Case) {
		tab := genTable(c, tabOpts{kinds: "f", force: "ff", maxCols: 4, minRows: 2, maxRows: 80, finite: true})
		for _, col := range tab.cols {
			for i := range col.vals {
				col.vals[i] = math.Mod(col.vals[i].(float64), 10)
			}
		}
		c.D("table %s", tab)
		df, tt := derive(c, build(c, tab), tab, viewOpts{repeat: true, maxOps: 2, minRows: 2})
		names := tt.all()
		target := names[c.Int("target", 0, len(names)-1)]
		seed := int64(rapid32(c))
		p := algorithms.LinRegTrainParams{
			Epochs: c.Int("epochs", 0, 4), LR: pick(c, "lr", 0, 0.0001, 0.001, 1e-5), BatchSize: tt.n + c.Int("more", 0, 3),
			WeightDecay: pick(c, "decay", 0, 0.01, 0.3), Momentum: pick(c, "momentum", 0, 0.2, 0.9), LowMemory: c.Bool("low memory"), Verbose: c.Chance("verbose", 3)}
		if c.Bool("default batch size") && tt.n <= 64 {
			p.BatchSize = 0
		}
		c.D("target %q seed %d %+v", target, seed, p)
		c.Risky()
		frozen := p
		frozen.LR, frozen.WeightDecay, frozen.BatchSize, frozen.Epochs = 1e-300, 0, tt.n, 1
		w0 := fitOnce(c, df, target, frozen, seed).Weights
		m := fitOnce(c, df, target, p, seed)
		c.expect("the data after Fit", df, tt)
		want := append([]string(nil), names...)
		for i, n := range want {
			if n == target {
				want = append(want[:i], want[i+1:]...)
				break
			}
		}
		if !sameNames(m.Features, want) || len(m.Weights) != len(want) || len(w0) != len(want) {
			c.Bad("Features is %q with %d weights; expected %q", m.Features, len(m.Weights), want)
		}
		for i := range w0 {
			if w0[i] == 0 || w0[i] != w0[i] {
				c.Bad("the initial weights are %v", w0)
			}
		}
		ys := toFloats(tt.cols[target].vals)
		a := scaling(ys, preprocessing.ScalerOptions{Centering: true, Scaling: true})
		if a.constant || a.ill {
			c.L("constant target: only the features are compared")
			return
		}
		if p.Epochs == 0 {
			p.Epochs = 1
		}
		if p.LR == 0 {
			p.LR = 0.0001
		}
		// the reference descent
		w := append([]float64(nil), w0...)
		prev := make([]float64, len(w))
		big := 0.0
		for e := 0; e < p.Epochs; e++ {
			g := make([]float64, len(w))
			for i := 0; i < tt.n; i++ {
				d := -(ys[i] + a.shift) * a.scale
				for j, f := range m.Features {
					d += w[j] * tt.cols[f].vals[i].(float64)
				}
				for j, f := range m.Features {
					g[j] += d * tt.cols[f].vals[i].(float64)
				}
			}
			for j := range w {
				g[j] += p.Momentum * prev[j]
				prev[j] = g[j]
				w[j] = (w[j] - p.LR*g[j]) * (1 - p.WeightDecay)
				big = math.Max(big, math.Max(math.Abs(w[j]), p.LR*math.Abs(g[j])))
			}
		}
		for j := range w {
			if !near(m.Weights[j], w[j], 1e-6*(1+big)) {
				c.Bad("weight of %q is %v instead of %v (initially %v; all: %v, %v)", m.Features[j], m.Weights[j], w[j], w0[j], m.Weights, w)
			}
		}
		c.NT(tt.n >= 2 && p.Epochs >= 2)
	})
}

// TestC26_Verbose: the log changes nothing.
func TestC26_Verbose(t *testing.T) {
	Prop(t, "Fit with the same seed on the same data of any magnitude, converging or not, with and without Verbose, gives the same weights; non-trivial: at least 2 rows and 2 steps", 200, func(c *Case) {
		tab := genTable(c, tabOpts{kinds: "fb", force: "ff", maxCols: 4, minRows: 1, maxRows: 300, finite: true})
		if c.Bool("moderate") {
			for _, name := range tab.names("f") {
				for i, v := range tab.cols[name].vals {
					tab.cols[name].vals[i] = math.Mod(v.(float64), 10)
				}
			}
		}
		c.D("table %s", tab)
		df := build(c, tab)
		names := tab.names("f")
		target := names[c.Int("target", 0, len(names)-1)]
		seed := int64(rapid32(c))
		p := algorithms.LinRegTrainParams{
			Epochs: c.Int("epochs", 0, 4), LR: pick(c, "lr", 0, 0.001, 0.1, 1e-6), BatchSize: pick(c, "batch", 0, 1, 2, 7, tab.n, tab.n+1),
			WeightDecay: pick(c, "decay", 0, 0.01, 0.3), Momentum: pick(c, "momentum", 0, 0.2, 0.9), LowMemory: c.Bool("low memory"), Verbose: c.Bool("verbose")}
		q := p
		q.Verbose = !p.Verbose
		c.D("target %q seed %d %+v", target, seed, p)
		c.Risky()
		a := fitOnce(c, df, target, p, seed)
		b := fitOnce(c, df, target, q, seed)
		for k := 0; k < 10 && fmt.Sprintf("%q", a.Features) != fmt.Sprintf("%q", b.Features); k++ {
			b = fitOnce(c, df, target, q, seed) // the order of the columns is any
		}
		if fmt.Sprintf("%q", a.Features) != fmt.Sprintf("%q", b.Features) {
			if !sameNames(a.Features, b.Features) {
				c.Bad("the features are %q or %q", a.Features, b.Features)
			}
			c.L("other order of the features")
			return // the initial weights are drawn in this order
		}
		big, finite := 0.0, true
		for _, w := range append(append([]float64(nil), a.Weights...), b.Weights...) {
			big = math.Max(big, math.Abs(w))
			finite = finite && math.Abs(w) < 1e150
		}
		if !finite {
			c.L("diverges to infinity")
			return
		}
		for j := range a.Weights {
			if !near(a.Weights[j], b.Weights[j], 1e-6*(1+big)) {
				c.Bad("the weights are %v when Verbose is %v and %v otherwise", a.Weights, p.Verbose, b.Weights)
			}
		}
		c.expect("the data after Fit", df, tab)
		c.NT(tab.n >= 2 && p.Epochs >= 2)
	})
}

// descent is the reference: gradient descent over batches of rows
type descent struct {
	x          [][]float64
	y          []float64
	w, prev, g []float64
	big        float64
}

func (d *descent) step(rows []int, p algorithms.LinRegTrainParams) {
	for j := range d.g {
		d.g[j] = 0
	}
	for _, i := range rows {
		e := -d.y[i]
		for j, w := range d.w {
			e += w * d.x[i][j]
		}
		for j := range d.w {
			d.g[j] += e * d.x[i][j]
		}
	}
	for j := range d.w {
		d.g[j] += p.Momentum * d.prev[j]
		d.prev[j] = d.g[j]
		d.w[j] = (d.w[j] - p.LR*d.g[j]) * (1 - p.WeightDecay)
		d.big = math.Max(d.big, math.Max(math.Abs(d.w[j]), p.LR*math.Abs(d.g[j])))
	}
}

func (d *descent) epoch(order []int, p algorithms.LinRegTrainParams) {
	for i := 0; i < len(order); i += p.BatchSize {
		end := i + p.BatchSize
		if end > len(order) {
			end = len(order)
		}
		d.step(order[i:end], p)
	}
}

func (d *descent) copy() *descent {
	r := *d
	r.w, r.prev, r.g = append([]float64(nil), d.w...), append([]float64(nil), d.prev...), make([]float64, len(d.w))
	return &r
}

// some calls f with orders of 0..n-1 until it returns true
func someOrder(n int, f func([]int) bool) bool {
	a := seq(0, n)
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			return f(a)
		}
		for i := k; i < n; i++ {
			a[k], a[i] = a[i], a[k]
			if rec(k + 1) {
				return true
			}
			a[k], a[i] = a[i], a[k]
		}
		return false
	}
	return rec(0)
}

func TestC26_Batches(t *testing.T) {
	Prop(t, "Fit with batches smaller than the dataframe, also when the last one is incomplete: on views of 1 to 5 rows the weights must be those of a reference descent for some order of the rows in each epoch; on up to 200 equal rows for any order; non-trivial: at least 2 batches per epoch", 300, func(c *Case) {
		same := c.Bool("equal rows")
		o := tabOpts{kinds: "f", force: "ff", maxCols: 4, minRows: 1, maxRows: 5, finite: true}
		if same {
			o.maxRows = 2
		}
		tab := genTable(c, o)
		for _, col := range tab.cols {
			for i := range col.vals {
				col.vals[i] = math.Mod(col.vals[i].(float64), 4)
			}
		}
		df := build(c, tab)
		p := algorithms.LinRegTrainParams{
			Epochs: c.Int("epochs", 1, 2), LR: pick(c, "lr", 0.01, 0.001, 0.05),
			WeightDecay: pick(c, "decay", 0, 0.01, 0.3), Momentum: pick(c, "momentum", 0, 0.2, 0.9), LowMemory: c.Bool("low memory")}
		tt := tab
		if same {
			n := pick(c, "rows", c.Int("few", 1, 12), c.Int("many", 1, 200), 64, 65, 63, 128, 129)
			row := c.Int("row", 0, tab.n-1)
			idx := make([]int, n)
			for i := range idx {
				idx[i] = row
			}
			df, tt = df.IndexView(idx), tab.rows(idx)
			p.Epochs = c.Int("epochs of equal rows", 1, 4)
			p.BatchSize = pick(c, "batch", 0, 1, n, c.Int("any batch", 1, n+2), (n+1)/2, n-1)
			p.LR /= float64(n)
		} else {
			df, tt = derive(c, df, tab, viewOpts{maxOps: 2, minRows: 1})
			if tt.n > 5 {
				df, tt = df.IndexView(seq(0, 5)), tt.rows(seq(0, 5))
			}
			if tt.n == 5 {
				p.Epochs = 1
			}
			p.BatchSize = c.Int("batch of few", 1, tt.n)
		}
		if p.BatchSize < 0 {
			p.BatchSize = 0
		}
		names := tt.all()
		target := names[c.Int("target", 0, len(names)-1)]
		seed := int64(rapid32(c))
		c.D("target %q seed %d %+v, %d rows: %s", target, seed, p, tt.n, tt.rows(seq(0, min(tt.n, 5))))
		c.Risky()
		frozen := p
		frozen.LR, frozen.WeightDecay, frozen.Epochs = 1e-300, 0, 1
		w0 := fitOnce(c, df, target, frozen, seed).Weights
		m := fitOnce(c, df, target, p, seed)
		c.expect("the data after Fit", df, tt)
		if len(m.Weights) != len(names)-1 || len(w0) != len(m.Weights) || len(m.Features) != len(names)-1 {
			c.Bad("%d features, %d weights for the columns %q", len(m.Features), len(m.Weights), names)
		}
		ys := toFloats(tt.cols[target].vals)
		a := scaling(ys, preprocessing.ScalerOptions{Centering: true, Scaling: true})
		if a.ill {
			return
		}
		d := &descent{w: append([]float64(nil), w0...), prev: make([]float64, len(w0)), g: make([]float64, len(w0))}
		for i := 0; i < tt.n; i++ {
			var x []float64
			for _, f := range m.Features {
				x = append(x, tt.cols[f].vals[i].(float64))
			}
			d.x = append(d.x, x)
			d.y = append(d.y, (ys[i]+a.shift)*a.scale)
			if a.constant {
				d.y[i] = 0
			}
		}
		if p.BatchSize == 0 {
			p.BatchSize = 64
		}
		ok := func(d *descent) bool {
			for j := range d.w {
				if !near(m.Weights[j], d.w[j], 1e-6*(1+d.big)) {
					return false
				}
			}
			return true
		}
		var search func(d *descent, e int) bool
		search = func(d *descent, e int) bool {
			if e == p.Epochs {
				return ok(d)
			}
			if same {
				n := d.copy()
				n.epoch(seq(0, tt.n), p)
				return search(n, e+1)
			}
			return someOrder(tt.n, func(order []int) bool {
				n := d.copy()
				n.epoch(order, p)
				return search(n, e+1)
			})
		}
		if !search(d, 0) {
			c.Bad("from the weights %v, no order of the %d rows (batches of %d) leads to %v", w0, tt.n, p.BatchSize, m.Weights)
		}
		c.NT(tt.n > p.BatchSize)
	})
}

// ------------------------------------------------------------ C27 evaluation

func TestC27_Metrics(t *testing.T) {
	Prop(t, "MSE and MAE between float columns of views with different row orders, against their definition; non-trivial: at least 2 rows and different columns", 1200, func(c *Case) {
		f := genFrame(c, tabOpts{kinds: "f", force: "ff", maxCols: 3, finite: true, minRows: 1}, viewOpts{repeat: true, maxOps: 3, minRows: 1})
		names := f.t.names("f")
		pn := func() string { return names[c.Int("column", 0, len(names)-1)] }
		if c.Chance("not finite", 4) {
			// a missing or an infinite value somewhere
			for k := c.Int("how many", 1, 2); k > 0; k-- {
				name, i := pn(), c.Int("at row", 0, f.t.n-1)
				v := pick(c, "value", math.NaN(), math.Inf(1), math.Inf(-1))
				f.df.Floats(name).Set(i, v)
				if f.t, _ = observe(f.df); f.t == nil {
					return
				}
			}
		}
		a, b := pn(), pn()
		// the other column comes from another view with as many rows
		idx := make([]int, f.t.n)
		s := c.source(len(idx))
		for i := range idx {
			idx[i] = s.n(f.t.n)
		}
		other, ot := f.df, f.t
		if c.Bool("another view") {
			other, ot = f.df.IndexView(idx), f.t.rows(idx)
		}
		c.D("%q against %q of rows %s", a, b, showIdx(idx))
		x, y := f.df.Floats(a), other.Floats(b)
		var sq, ab []float64
		for i := 0; i < f.t.n; i++ {
			d := f.t.cols[a].vals[i].(float64) - ot.cols[b].vals[i].(float64)
			sq = append(sq, d*d)
			ab = append(ab, math.Abs(d))
		}
		average := func(l []float64) float64 {
			sum := 0.0
			for _, v := range l {
				sum += v
			}
			if math.IsNaN(sum) || math.IsInf(sum, 0) {
				c.L("%v", sum)
				return sum
			}
			return mean(l)
		}
		same := func(g, w float64) bool { return sameVal(g, w) || near(g, w, 1e-9*w) }
		if g, w := algorithms.MSE(x, y), average(sq); !same(g, w) {
			c.Bad("MSE is %v instead of %v", g, w)
		}
		if g, w := algorithms.MAE(x, y), average(ab); !same(g, w) {
			c.Bad("MAE is %v instead of %v", g, w)
		}
		if !sameVal(algorithms.MSE(x, y), algorithms.MSE(y, x)) || !sameVal(algorithms.MAE(x, y), algorithms.MAE(y, x)) {
			c.Bad("MSE or MAE is not symmetric")
		}
		shorter := f.df.SliceView(0, f.t.n-1)
		for _, g := range []func(){func() { algorithms.MSE(x, shorter.Floats(b)) }, func() { algorithms.MAE(x, shorter.Floats(b)) },
			func() { algorithms.MSE(shorter.Floats(b), x) }, func() { algorithms.MAE(shorter.Floats(b), x) }} {
			if panics(g) == nil {
				c.Bad("MSE or MAE of columns of different lengths does not panic")
			}
		}
		c.expect("the data afterwards", f.df, f.t)
		c.NT(f.t.n >= 2 && a != b)
	})
}

func TestC24_OneHotPolicies(t *testing.T) {
	Prop(t, "a OneHotEncoder with any policies, ReturnError included, is fitted, written to JSON and read back; the original and the copy are applied to views with missing and unknown categories: both must refuse the same ones and make the same columns of the others; non-trivial: at least 2 rows and a missing or unknown category", 500, func(c *Case) {
		all := []preprocessing.CategoryPolicy{preprocessing.SeparateCategoryIfSeen, preprocessing.SeparateCategory, preprocessing.ImputeWithMostFrequent, preprocessing.ReturnError}
		o := preprocessing.OneHotOptions{MissingPolicy: pick(c, "missing policy", all...), UnknownPolicy: pick(c, "unknown policy", all...), KeepUsedColumns: c.Bool("keep")}
		if o.MissingPolicy != preprocessing.ReturnError && c.Chance("shared", 4) {
			o.UnknownPolicy = preprocessing.SharedSeparateCategory
		}
		n := c.Int("rows", 1, 20)
		pool := catValues[:c.Int("categories", 1, 5)]
		train := newTable(n).set("p", 'i', genCategories(c, n, pool, c.Bool("missing in training")))
		if len(catOf(train.cols["p"].vals).vals) == 0 {
			return
		}
		enc := preprocessing.NewOneHotEncoder(o)
		c.D("%+v fitted on %s", o, train)
		must(c, "Fit", enc.Fit(build(c, train)))
		again := &preprocessing.OneHotEncoder{}
		if c.Bool("made with New") {
			again = preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{})
		}
		must(c, "the JSON round trip", roundTrip(enc, again))
		m := c.Int("other rows", 1, 12)
		missing, unknown := c.Bool("missing"), c.Bool("unknown")
		if unknown {
			pool = append(append([]int(nil), pool...), unkValues...)
		}
		data := newTable(m).set("p", 'i', genCategories(c, m, pool, missing))
		df, dt := derive(c, build(c, data), data, viewOpts{maxOps: 2, repeat: true})
		c.D("applied to %s", dt)
		r1, err1 := enc.TransformView(df)
		r2, err2 := again.TransformView(df)
		if (err1 == nil) != (err2 == nil) {
			c.Bad("TransformView returns error %v before the JSON round trip and %v after", err1, err2)
		}
		c.NT(dt.n >= 2 && (missing || unknown))
		if err1 != nil {
			c.L("refused")
			return
		}
		want, err := observe(r1)
		must(c, "observe", err)
		c.expect("the result after the JSON round trip", r2, want)
	})
}

func TestC26_Shuffles(t *testing.T) {
	// with a constant feature, one row per batch and a learning rate of 0.5,
	// the final weight tells the order of the rows
	Prop(t, "a regressor with a constant feature is trained 120 times on a view of 4 rows, one row per batch, 2 epochs; the final weight tells the order of the rows in each epoch: every row must have been at every place of each epoch, and the second epoch must not always have the order of the first; non-trivial: always", 2, func(c *Case) {
		const n = 4
		ys := make([]float64, n)
		x, y := make([]interface{}, n), make([]interface{}, n)
		for i := range ys {
			ys[i] = float64(i*i) + float64(c.Int("target", 0, 1000))/4000
			x[i], y[i] = 1.0, ys[i]
		}
		tab := newTable(n).set("x", 'f', x).set("y", 'f', y)
		df, tt := derive(c, build(c, tab), tab, viewOpts{maxOps: 2, minRows: n})
		low := c.Bool("low memory")
		c.D("targets %v, low memory %v, 120 times", ys, low)
		if tt.n != n {
			return
		}
		ys = toFloats(tt.cols["y"].vals)
		a := scaling(ys, preprocessing.ScalerOptions{Centering: true, Scaling: true})
		p := algorithms.LinRegTrainParams{Epochs: 2, LR: 0.5, BatchSize: 1, LowMemory: low}
		seeds := rand.New(rand.NewSource(int64(rapid32(c))))
		var orders [][]int
		someOrder(n, func(o []int) bool {
			orders = append(orders, append([]int(nil), o...))
			return false
		})
		var place [2][n]map[int]bool
		for e := range place {
			for i := range place[e] {
				place[e][i] = map[int]bool{}
			}
		}
		alike := true
		for k := 0; k < 120; k++ {
			seed := seeds.Int63()
			frozen := p
			frozen.LR, frozen.Epochs = 1e-300, 1
			w0 := fitOnce(c, df, "y", frozen, seed).Weights[0]
			w := fitOnce(c, df, "y", p, seed).Weights[0]
			var found [][]int
			for _, o1 := range orders {
				for _, o2 := range orders {
					v := w0
					for _, i := range append(append([]int(nil), o1...), o2...) {
						v -= 0.5 * (v - (ys[i]+a.shift)*a.scale)
					}
					if near(v, w, 1e-9) {
						found = append(found, append(append([]int(nil), o1...), o2...))
					}
				}
			}
			if len(found) == 0 {
				c.Bad("from the weight %v, no order of the rows leads to %v", w0, w)
			}
			same := false
			for _, o := range found {
				same = same || equalInts(o[:n], o[n:])
				for i, row := range o {
					place[i/n][i%n][row] = true
				}
			}
			alike = alike && same
		}
		if alike {
			c.Bad("over 120 trainings, the rows were always in the same order in both epochs")
		}
		for e := range place {
			for i, rows := range place[e] {
				if len(rows) < n {
					c.Bad("over 120 trainings, only the rows %v were at place %d of epoch %d", rows, i, e+1)
				}
			}
		}
		c.NT(true)
	})
}
