package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
)

// ---------------------------------------------- C30 the number of CPUs

// clones returns dataframes of the same content that are allowed `cpus` CPUs.
func clones(c *Case, t *Table, cpus []int) []*dataframe.DataFrame {
	out := make([]*dataframe.DataFrame, len(cpus))
	for i, cpu := range cpus {
		df := buildPlain(t, 1)
		if c.Bool("view") {
			df = df.ReverseView().ReverseView().View()
		}
		df.SetMaxCPU(cpu)
		if got := df.ActualMaxCPU(); got != clipCPU(cpu) {
			c.Bad("ActualMaxCPU is %d after SetMaxCPU(%d) on %d cores", got, cpu, runtime.NumCPU())
		}
		out[i] = df
	}
	return out
}

// classesOf describes new boolean columns by the rows they select, whatever
// their names.
func classesOf(t *Table, newCols []string) string {
	var l []string
	for _, n := range newCols {
		vals := t.cols[n].vals
		l = append(l, indicator(t.n, func(i int) bool { return vals[i].(bool) }))
	}
	return strings.Join(sortedCopy(l), "\n")
}

func TestC30_Results(t *testing.T) {
	Prop(t, "the same operation (hashing, imputing, scaling, one-hot encoding, AutoPreprocessor, prediction, writing) runs on two dataframes of the same content but different limits of CPUs; non-trivial: at least 2 rows, 2 columns to process and different limits", 700, func(c *Case) {
		kind := pick(c, "operation", "hash", "imputer", "scaler", "onehot", "auto", "fit transform", "predict", "write")
		o := tabOpts{kinds: "ffiibss", minCols: 2, maxCols: 9, minRows: 1, maxRows: 100000, distinct: 250, finite: true, names: append(plainNames[:8:8], "é", "x y")}
		switch kind {
		case "hash":
			o.force = "ss"
		case "imputer", "scaler", "predict":
			o.force = "ff"
		case "onehot":
			o.force = "ii"
		case "auto", "fit transform":
			o.force = "ffss"
		}
		tab := genTable(c, o)
		if kind == "imputer" || kind == "scaler" || kind == "auto" || kind == "fit transform" {
			src := c.source(tab.n)
			for _, name := range tab.names("f") {
				for i := range tab.cols[name].vals {
					if src.n(7) == 0 {
						tab.cols[name].vals[i] = math.NaN()
					}
				}
			}
		}
		if kind == "onehot" {
			for _, name := range tab.names("i") {
				if len(catOf(tab.cols[name].vals).vals) == 0 {
					tab.cols[name].vals[0] = 5
				}
			}
		}
		cpus := []int{pick(c, "cpu a", 1, 1, 2, 3), pick(c, "cpu b", 8, 2, 3, -1, 0, 100, 4)}
		c.D("%s with %v CPUs on %s", kind, cpus, tab)
		dfs := clones(c, tab, cpus)
		cols := tab.names("f")
		var ran func(df *dataframe.DataFrame) (*Table, string)
		obs := func(df *dataframe.DataFrame) *Table {
			t, err := observe(df)
			if err != nil {
				c.Bad("%v", err)
			}
			return t
		}
		drop := func(t *Table, newCols []string) (*Table, string) { return t.without(newCols...), classesOf(t, newCols) }
		switch kind {
		case "hash":
			cols = subset(c, tab.names("s"))
			ran = func(df *dataframe.DataFrame) (*Table, string) { return obs(df.HashStringsView(cols...)), "" }
		case "imputer":
			p := preprocessing.FloatImputerOptions{Policy: pick(c, "policy", preprocessing.Mean, preprocessing.Zero)}
			ran = func(df *dataframe.DataFrame) (*Table, string) {
				x := preprocessing.NewFloatImputer(p)
				must(c, "Fit", x.Fit(df))
				must(c, "TransformInplace", x.TransformInplace(df))
				return obs(df), strings.Join(sortedCopy(x.TransformedColumns()), ",")
			}
		case "scaler":
			p := preprocessing.ScalerOptions{Centering: c.Bool("centering"), Scaling: c.Bool("scaling"), MinMax: c.Chance("minmax", 3)}
			inv := c.Bool("inverse")
			ran = func(df *dataframe.DataFrame) (*Table, string) {
				x := preprocessing.NewScaler(p)
				must(c, "Fit", x.Fit(df))
				if inv {
					must(c, "InverseTransformInplace", x.InverseTransformInplace(df))
				} else {
					must(c, "TransformInplace", x.TransformInplace(df))
				}
				return obs(df), strings.Join(sortedCopy(x.TransformedColumns()), ",")
			}
		case "onehot":
			cols = tab.names("i")
			p := preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory, KeepUsedColumns: c.Bool("keep")}
			ran = func(df *dataframe.DataFrame) (*Table, string) {
				x := preprocessing.NewOneHotEncoder(p)
				must(c, "Fit", x.Fit(df))
				res, err := x.TransformView(df)
				must(c, "TransformView", err)
				return drop(obs(res), x.NewColumns)
			}
		case "auto", "fit transform":
			cols = append(tab.names("f"), tab.names("s")...)
			p := preprocessing.AutoPreprocOptions{Imputing: c.Bool("imputing"), Scaling: c.Bool("scaling")}
			ran = func(df *dataframe.DataFrame) (*Table, string) {
				x := preprocessing.NewAutoPreprocessor(p)
				var res *dataframe.DataFrame
				if kind == "auto" {
					must(c, "Fit", x.Fit(df))
					var err error
					res, err = x.TransformView(df)
					must(c, "TransformView", err)
				} else {
					res = x.FitTransform(df)
				}
				t := obs(res)
				var newCols []string
				for _, n := range t.all() {
					if tab.cols[n] == nil {
						newCols = append(newCols, n)
					}
				}
				return drop(t, newCols)
			}
		case "predict":
			m, _ := genModel(c, tab.names("fib"))
			for _, n := range tab.names("i") {
				for i, v := range tab.cols[n].vals {
					if v.(int) > 1<<40 || v.(int) < -1<<40 {
						tab.cols[n].vals[i] = 3
					}
				}
			}
			dfs = clones(c, tab, cpus)
			ran = func(df *dataframe.DataFrame) (*Table, string) {
				res, err := m.Predict(df, "y_pred")
				must(c, "Predict", err)
				t := obs(res)
				perm := matchRows(c, res.ColumnView(tab.all()...), tab, seq(0, tab.n))
				at := make([]int, tab.n)
				for j, i := range perm {
					at[i] = j
				}
				return t.rows(at), ""
			}
		case "write":
			cols = tab.all()
			spec := genWriting(c)
			k := c.Int("writers", 1, 5)
			ran = func(df *dataframe.DataFrame) (*Table, string) {
				bufs := make([]bytes.Buffer, k)
				ws := make([]io.Writer, k)
				for i := range bufs {
					ws[i] = &bufs[i]
				}
				must(c, "ToCSVs", df.ToCSVs(ws, spec))
				var texts []string
				for i := range bufs {
					texts = append(texts, bufs[i].String())
				}
				checkFiles(c, "ToCSVs", texts, spec, frames{df: df, t: tab})
				return obs(df), ""
			}
		}
		c.Risky()
		a, sa := ran(dfs[0])
		b, sb := ran(dfs[1])
		if sa != sb {
			c.Bad("%s with %d CPUs: new columns\n%s\nwith %d CPUs:\n%s", kind, cpus[0], clip(sa, 2000), cpus[1], clip(sb, 2000))
		}
		// sums may be rounded in another order
		if d := diff(roundFloats(a, b, tab), b); d != "" {
			c.Bad("%s gives different results with %d and %d CPUs: %s", kind, cpus[0], cpus[1], d)
		}
		c.L(kind)
		c.NT(tab.n >= 2 && len(cols) >= 2 && clipCPU(cpus[0]) != clipCPU(cpus[1]))
	})
}

// roundFloats returns a with those floats replaced by b's that differ from
// them by rounding errors only.
func roundFloats(a, b, tab *Table) *Table {
	a = a.clone()
	for _, name := range a.names("f") {
		other := b.cols[name]
		if other == nil || other.kind != 'f' || len(other.vals) != a.n {
			continue
		}
		m := maxAbs(present(other.vals))
		if in := tab.cols[name]; in != nil && in.kind == 'f' {
			m += maxAbs(present(in.vals))
		}
		for i, v := range a.cols[name].vals {
			if near(v.(float64), other.vals[i].(float64), 1e-9*m) {
				a.cols[name].vals[i] = other.vals[i]
			}
		}
	}
	return a
}

func TestC30_Reading(t *testing.T) {
	Prop(t, "one CSV text is read with different limits of CPUs, from a reader and as a set of files; the limit of the result is the requested one; non-trivial: at least 2 records and 2 columns", 500, func(c *Case) {
		in := genCSV(c, 200)
		c.D("%s", in)
		one := in.spec
		one.MaxCPU = 1
		c.Risky()
		a, errA := dataframe.FromCSV(strings.NewReader(in.text), one)
		b, errB := dataframe.FromCSV(strings.NewReader(in.text), in.spec)
		if (errA != nil) != (errB != nil) {
			c.Bad("with 1 CPU, FromCSV returns error %v, with %d, %v", errA, in.spec.MaxCPU, errB)
		}
		if errA != nil {
			return
		}
		if got := b.ActualMaxCPU(); got != clipCPU(in.spec.MaxCPU) {
			c.Bad("ActualMaxCPU is %d for MaxCPU %d on %d cores", got, in.spec.MaxCPU, runtime.NumCPU())
		}
		if len(in.records) == 0 {
			return
		}
		want, err := observe(a.ToDataFrame())
		if err != nil {
			c.Bad("%v", err)
		}
		c.expect("the dataframe read with more CPUs", b.ToDataFrame(), want)
		if c.Chance("files", 3) && len(want.cols) > 0 {
			dir := scratch(c)
			defer os.RemoveAll(dir)
			k := c.Int("number of files", 1, 6)
			for i := 0; i < k; i++ {
				if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d.csv", i)), []byte(in.text), 0o600); err != nil {
					panic(err)
				}
			}
			c.D("%d files", k)
			var all []int
			for i := 0; i < k; i++ {
				all = append(all, seq(0, want.n)...)
			}
			for _, spec := range []dataframe.CSVReadingSpec{one, in.spec} {
				c.Risky()
				res, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "*.csv"), spec)
				must(c, "FromCSVFilePattern", err)
				if got := res.ActualMaxCPU(); got != clipCPU(spec.MaxCPU) {
					c.Bad("ActualMaxCPU is %d for MaxCPU %d on %d cores", got, spec.MaxCPU, runtime.NumCPU())
				}
				c.expect(fmt.Sprintf("%d times the same file with %d CPUs", k, spec.MaxCPU), res.ToDataFrame(), want.rows(all))
			}
		}
		c.NT(len(in.records) >= 2 && len(want.cols) >= 2)
	})
}

func TestC30_Limit(t *testing.T) {
	Prop(t, "SetMaxCPU with any number on dataframes, views and raw data, and the column queues made from them; non-trivial: at least 2 columns", 500, func(c *Case) {
		f := genFrame(c, tabOpts{kinds: "fibso", minCols: 1}, viewOpts{repeat: true, maxOps: 3})
		cpu := pick(c, "SetMaxCPU", 1, 2, 3, 5, 7, 8, 9, 64, 0, -1, -7, math.MaxInt32)
		before := f.root.ActualMaxCPU()
		df := f.df.View()
		df.SetMaxCPU(cpu)
		check := func(what string, got int) {
			if got != clipCPU(cpu) {
				c.Bad("%s: ActualMaxCPU is %d after SetMaxCPU(%d) on %d cores", what, got, cpu, runtime.NumCPU())
			}
		}
		check("the dataframe", df.ActualMaxCPU())
		check("a view", df.ReverseView().ActualMaxCPU())
		check("a copy", df.Copy().ActualMaxCPU())
		check("a column view", df.ColumnView(f.t.all()...).ActualMaxCPU())
		empty := dataframe.EmptyDataFrame(c.Int("rows", 0, 3), cpu)
		check("an empty dataframe", empty.ActualMaxCPU())
		if q := empty.CreateColumnQueue([]string{"1", "2", "3"}); q.Workers < 1 || q.Workers > clipCPU(cpu) {
			c.Bad("a column queue of EmptyDataFrame(…, %d) has %d workers", cpu, q.Workers)
		}
		if got := f.root.ActualMaxCPU(); got != before {
			c.Bad("SetMaxCPU of a view changed its parent's from %d to %d", before, got)
		}
		cols := subset(c, f.t.all())
		if c.Bool("more columns") {
			for i := c.Int("more", 0, 100); i > 0; i-- {
				cols = append(cols, fmt.Sprintf("more%d", i))
			}
		}
		q := df.CreateColumnQueue(cols)
		if q.Workers < 1 || q.Workers > clipCPU(cpu) {
			c.Bad("a column queue has %d workers with SetMaxCPU(%d)", q.Workers, cpu)
		}
		var seen []string
		for name := range q.Keys {
			seen = append(seen, name)
		}
		if !sameNames(seen, cols) {
			c.Bad("the column queue of %q delivers %q", cols, seen)
		}
		c.NT(len(cols) >= 2)
	})
}

// ------------------------------------------------------ C31 concurrent use

// job is something that a goroutine does with a dataframe that it shares with
// the others; it returns what it has seen.
type job struct {
	name string
	run  func(df *dataframe.DataFrame) string
}

func hashTable(t *Table) string {
	var sb strings.Builder
	for _, n := range t.all() {
		fmt.Fprintf(&sb, "%q %c:", n, t.cols[n].kind)
		for _, v := range t.cols[n].vals {
			sb.WriteString(showVal(v) + ";")
		}
	}
	return sb.String()
}

var jobKinds = []string{"read", "slice", "index", "mask", "zeromask", "reverse", "columns", "sort", "top", "hash", "copy", "detach", "restructure",
	"write", "split", "concat", "colconcat", "matrix", "iterator", "labels", "shuffle", "imputer", "scaler", "onehot", "auto", "fit imputer", "fit scaler",
	"fit onehot", "fit auto", "predict", "encode", "header", "summary", "reset", "interfaces", "long", "overwrite", "convert", "transfer", "own limit",
	"metrics", "fit regressor", "hash encoder", "inverse", "component"}

func genJob(c *Case, t *Table, shared *sharedModels) job {
	n := t.n
	pickName := func(kinds string) string {
		names := t.names(kinds)
		if len(names) == 0 {
			return ""
		}
		return names[c.Int("job column", 0, len(names)-1)]
	}
	kind := pick(c, "job", jobKinds...)
	if len(shared.theme) > 0 {
		kind = pick(c, "themed job", shared.theme...)
	}
	j := job{name: kind}
	obs := func(df *dataframe.DataFrame) string {
		t, err := observe(df)
		if err != nil {
			return "error: " + err.Error()
		}
		return hashTable(t)
	}
	fail := func(err error) string { return "error: " + err.Error() }
	multiset := func(df *dataframe.DataFrame) string {
		t, err := observe(df)
		if err != nil {
			return fail(err)
		}
		return rowMultiset(t)
	}
	switch kind {
	case "read":
		j.run = obs
	case "slice":
		a := c.Int("from", 0, n)
		b := c.Int("to", a, n)
		j.run = func(df *dataframe.DataFrame) string { return obs(df.SliceView(a, b)) }
	case "index":
		idx := genIndices(c, n, true)
		j.run = func(df *dataframe.DataFrame) string { return obs(df.IndexView(append([]int(nil), idx...))) }
	case "mask", "zeromask":
		mod, off := c.Int("mod", 1, 4), c.Int("off", 0, 3)
		j.run = func(df *dataframe.DataFrame) string {
			var m []bool
			if kind == "mask" {
				m = df.EmptyMask()
				for i := range m {
					m[i] = i%mod == off
				}
			} else {
				m = df.ZeroMask()
				for i := off; i < len(m); i += mod {
					m[i] = true
				}
			}
			return obs(df.MaskView(m))
		}
	case "reverse":
		j.run = func(df *dataframe.DataFrame) string { return obs(df.ReverseView().View()) }
	case "columns":
		cols := subset(c, t.all())
		if len(cols) == 0 {
			cols = t.all()
		}
		j.run = func(df *dataframe.DataFrame) string { return obs(df.ColumnView(cols...)) }
	case "sort", "top":
		name := pickName("fib")
		k, asc := c.Int("n", 0, n), c.Bool("asc")
		if name == "" {
			return genReadJob(obs)
		}
		j.run = func(df *dataframe.DataFrame) string {
			if kind == "sort" {
				return obs(df.SortedView(name))
			}
			return obs(df.TopView(name, k, asc, true).ColumnView(name))
		}
	case "hash":
		cols := subset(c, t.names("s"))
		j.run = func(df *dataframe.DataFrame) string { return obs(df.HashStringsView(cols...)) }
	case "copy":
		j.run = func(df *dataframe.DataFrame) string { return obs(df.Copy()) + obs(df.ShallowCopy()) }
	case "detach":
		name := pickName("f")
		j.run = func(df *dataframe.DataFrame) string {
			v := df.DetachedView()
			if name != "" {
				acc := v.Floats(name)
				for i := 0; i < acc.Size(); i++ {
					acc.Set(i, float64(i))
				}
			}
			return obs(v)
		}
	case "restructure":
		name := pickName("fibso")
		j.run = func(df *dataframe.DataFrame) string {
			v := df.View()
			if name != "" {
				v.Rename(name, "a new name")
				v.OverwriteInts("new ints", seq(0, n))
				v.AllocStrings("new strings")
				v.Drop("new strings")
				v.AllocFloats("new floats")
			}
			return obs(v)
		}
	case "write":
		k := c.Int("writers", 1, 3)
		j.run = func(df *dataframe.DataFrame) string {
			bufs := make([]bytes.Buffer, k)
			ws := make([]io.Writer, k)
			for i := range bufs {
				ws[i] = &bufs[i]
			}
			cv := df
			if name := t.names("fib"); len(name) > 0 {
				cv = df.ColumnView(name[0]) // the order of the columns is not specified
			} else {
				cv = df.ColumnView(t.names("s")[:1]...)
			}
			if err := cv.ToCSVs(ws, dataframe.CSVWritingSpec{MaintainOrder: true}); err != nil {
				return fail(err)
			}
			out := ""
			for i := range bufs {
				out += bufs[i].String() + "\x00"
			}
			return out
		}
	case "split":
		k := c.Int("n", 1, 4)
		j.run = func(df *dataframe.DataFrame) string {
			out := ""
			for _, p := range append(df.SplitNView(k), df.SplitView(k+3)...) {
				out += obs(p)
			}
			a, b := df.SplitTrainTestViews(0.3)
			return out + obs(a) + obs(b)
		}
	case "concat":
		j.run = func(df *dataframe.DataFrame) string {
			res, err := dataframe.RowConcat(df, df.ReverseView())
			if err != nil {
				return fail(err)
			}
			return obs(res)
		}
	case "colconcat":
		names := t.all()
		j.run = func(df *dataframe.DataFrame) string {
			if len(names) < 2 {
				return obs(df)
			}
			res, err := dataframe.ColumnConcatView(df.ColumnView(names[0]), df.ColumnView(names[1:]...))
			if err != nil {
				return fail(err)
			}
			res2, err := dataframe.ColumnSmartConcat(df.ColumnView(names[0]), df.ColumnView(names[1:]...))
			if err != nil {
				return fail(err)
			}
			return obs(res) + obs(res2)
		}
	case "matrix":
		names := t.names("fib")
		j.run = func(df *dataframe.DataFrame) string {
			if len(names) == 0 || n == 0 {
				return obs(df)
			}
			bat := dataframe.NewDense64Batching(names)
			out := ""
			for _, v := range []*dataframe.DataFrame{df, df.ReverseView()} {
				m := bat.DenseMatrix(v)
				r, k := m.Dims()
				for i := 0; i < r; i++ {
					for l := 0; l < k; l++ {
						out += fmt.Sprint(m.At(i, l), ",")
					}
				}
			}
			return out
		}
	case "iterator":
		names := t.names("fib")
		j.run = func(df *dataframe.DataFrame) string {
			if len(names) == 0 {
				return obs(df)
			}
			ite := dataframe.NewFloat32Iterator(df, names)
			out := ""
			for row, i, _ := ite.NextRow(); row != nil; row, i, _ = ite.NextRow() {
				out += fmt.Sprint(i, row)
			}
			return out
		}
	case "labels":
		name := pickName("s")
		j.run = func(df *dataframe.DataFrame) string {
			if name == "" {
				return obs(df)
			}
			ints, m := df.LabelToInt(name)
			var keys []string
			for k, v := range m {
				keys = append(keys, fmt.Sprintf("%q=%d", k, v))
			}
			sort.Strings(keys)
			return fmt.Sprint(ints, keys)
		}
	case "shuffle":
		j.run = func(df *dataframe.DataFrame) string {
			k := n / 2
			s := df.SampleView(k, false)
			return multiset(df.ShuffleView()) + fmt.Sprint(s.NumRows())
		}
	case "reset":
		j.run = func(df *dataframe.DataFrame) string { return multiset(df.ResetIndexView()) }
	case "imputer", "scaler":
		j.run = func(df *dataframe.DataFrame) string {
			v := df.DetachedView()
			var err error
			if kind == "imputer" {
				err = shared.imputer.TransformInplace(v)
			} else {
				err = shared.scaler.TransformInplace(v)
			}
			if err != nil {
				return fail(err)
			}
			return obs(v)
		}
	case "onehot", "auto":
		j.run = func(df *dataframe.DataFrame) string {
			var res *dataframe.DataFrame
			var err error
			if kind == "onehot" {
				res, err = shared.onehot.TransformView(df)
			} else {
				res, err = shared.auto.TransformView(df)
			}
			if err != nil {
				return fail(err)
			}
			return obs(res)
		}
	case "hash encoder":
		j.run = func(df *dataframe.DataFrame) string {
			res, err := shared.hash.TransformView(df)
			if err != nil {
				return fail(err)
			}
			return obs(res)
		}
	case "inverse":
		j.run = func(df *dataframe.DataFrame) string {
			v := df.DetachedView()
			if err := shared.scaler.InverseTransformInplace(v); err != nil {
				return fail(err)
			}
			return obs(v)
		}
	case "component":
		// what components tell about themselves
		j.run = func(df *dataframe.DataFrame) string {
			out := fmt.Sprintf("%q %q %q %q %q", sortedCopy(shared.imputer.TransformedColumns()), sortedCopy(shared.scaler.TransformedColumns()),
				sortedCopy(shared.onehot.TransformedColumns()), sortedCopy(shared.auto.TransformedColumns()), sortedCopy(shared.hash.TransformedColumns()))
			for _, x := range []interface{}{shared.imputer, shared.scaler, shared.onehot, shared.auto, shared.model} {
				b, err := json.Marshal(x)
				out += fmt.Sprint(string(b), err)
			}
			return out
		}
	case "predict":
		j.run = func(df *dataframe.DataFrame) string {
			if len(shared.model.Features) == 0 {
				return ""
			}
			res, err := shared.model.Predict(df, "y_pred")
			if err != nil {
				return fail(err)
			}
			return multiset(res)
		}
	case "fit imputer":
		j.run = func(df *dataframe.DataFrame) string {
			x := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.Mean})
			if err := x.Fit(df); err != nil {
				return fail(err)
			}
			v := df.DetachedView()
			x.TransformInplace(v)
			return obs(v)
		}
	case "fit scaler":
		j.run = func(df *dataframe.DataFrame) string {
			x := preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
			if err := x.Fit(df); err != nil {
				return fail(err)
			}
			v := df.DetachedView()
			x.TransformInplace(v)
			return obs(v)
		}
	case "fit onehot":
		j.run = func(df *dataframe.DataFrame) string {
			x := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
			if err := x.Fit(df); err != nil {
				return fail(err)
			}
			res, err := x.TransformView(df)
			if err != nil {
				return fail(err)
			}
			got, err := observe(res)
			if err != nil {
				return fail(err)
			}
			return classesOf(got, x.NewColumns)
		}
	case "fit auto":
		j.run = func(df *dataframe.DataFrame) string {
			x := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true})
			got, err := observe(x.FitTransform(df))
			if err != nil {
				return fail(err)
			}
			var newCols []string
			for _, name := range got.all() {
				if t.cols[name] == nil {
					newCols = append(newCols, name)
				}
			}
			return classesOf(got, newCols) + hashTable(got.without(newCols...))
		}
	case "encode":
		j.run = func(df *dataframe.DataFrame) string {
			v := df.DetachedView()
			if err := v.Encode(encodings[len(encodings)-1].e); err != nil {
				return "not encodable"
			}
			return obs(v)
		}
	case "header":
		j.run = func(df *dataframe.DataFrame) string {
			h := df.Header().Except(t.all()[0]).And(df.FloatHeader(), df.StringHeader())
			return fmt.Sprintf("%q %q", sortedCopy(h.NameList()), sortedCopy(df.ObjectHeader().Copy().NameList()))
		}
	case "summary":
		j.run = func(df *dataframe.DataFrame) string {
			return fmt.Sprint(df.NumRows(), df.NumColumns(), df.ActualMaxCPU(), df.AreIndicesAltered(), df.Header().Num())
		}
	case "long":
		// views that are longer than the dataframe, and masks of them
		idx, again := make([]int, n+pick(c, "longer", 1, 1, 2, 3, n+2)), c.Int("again", 1, 5)
		if n == 0 {
			idx = nil
		}
		for i := range idx {
			idx[i] = i * 7 % n
		}
		j.run = func(df *dataframe.DataFrame) string {
			v := df.IndexView(idx)
			out := obs(v)
			m := v.ZeroMask()
			for i := range m {
				m[i] = i%3 == 0
			}
			out += obs(v.MaskView(m))
			longer := append([]int(nil), idx...)
			for i := 0; i < again && len(idx) > 0; i++ {
				longer = append(longer, i%len(idx))
			}
			return out + obs(v.IndexView(longer))
		}
	case "overwrite":
		fs, is, bs, ss := t.names("f"), t.names("i"), t.names("b"), t.names("s")
		cols := subset(c, t.all())
		j.run = func(df *dataframe.DataFrame) string {
			v := df.DetachedView()
			if len(cols) > 0 && len(cols) < len(t.cols) {
				v = df.DetachedView(cols...)
			}
			own := func(name string) bool { return len(cols) == 0 || contains(cols, name) || len(cols) == len(t.cols) }
			for _, name := range fs {
				if own(name) {
					v.OverwriteFloats32(name, make([]float32, n))
				}
			}
			for _, name := range is {
				if own(name) {
					v.OverwriteInts(name, make([]int, n))
				}
			}
			for _, name := range bs {
				if own(name) {
					v.OverwriteBools(name, make([]bool, n))
				}
			}
			for _, name := range ss {
				if own(name) {
					v.OverwriteStrings(name, make([]string, n))
				}
			}
			v.OverwriteObjects("new objects", make([]interface{}, n), dataframe.StringObject)
			return obs(v)
		}
	case "convert":
		is, bs := t.names("i"), t.names("b")
		j.run = func(df *dataframe.DataFrame) string {
			v := df.View()
			v.IntToFloats(is...)
			v.BoolToFloats(bs...)
			w := df.SliceView(0, n/2)
			w.Drop(is...)
			return obs(v) + obs(w)
		}
	case "transfer":
		name := pickName("fibso")
		j.run = func(df *dataframe.DataFrame) string {
			v := df.View()
			w := df.ColumnView(name)
			w.Rename(name, "transferred")
			v.TransferRawDataFrom(&w.RawData)
			return obs(v)
		}
	case "own limit":
		cpu := c.Int("own limit", -1, 9)
		j.run = func(df *dataframe.DataFrame) string {
			v := df.View()
			v.SetMaxCPU(cpu)
			v.ThreadSafeMasking(true)
			q := v.CreateColumnQueue(t.all())
			k := 0
			for range q.Keys {
				k++
			}
			return fmt.Sprint(v.ActualMaxCPU(), q.Workers, k)
		}
	case "metrics":
		name := pickName("f")
		j.run = func(df *dataframe.DataFrame) string {
			if name == "" {
				return ""
			}
			a, b := df.Floats(name), df.ReverseView().Floats(name)
			return fmt.Sprint(algorithms.MSE(a, b), algorithms.MAE(a, b), a.VecDenseCopy().Len())
		}
	case "fit regressor":
		fs := t.names("f")
		j.run = func(df *dataframe.DataFrame) string {
			if len(fs) < 2 {
				return obs(df)
			}
			x := algorithms.NewLinearRegressor()
			if err := x.Fit(df, fs[0], algorithms.LinRegTrainParams{Epochs: 2, BatchSize: 7, LR: 1e-7}); err != nil {
				return fail(err)
			}
			return fmt.Sprintf("%q %d", sortedCopy(x.Features), len(x.Weights))
		}
	case "interfaces":
		name := pickName("fibso")
		j.run = func(df *dataframe.DataFrame) string {
			if name == "" {
				return ""
			}
			return fmt.Sprint(df.CopyValuesToInterfaces(name))
		}
	}
	return j
}

func genReadJob(obs func(df *dataframe.DataFrame) string) job { return job{"read", obs} }

// sharedModels are components that several goroutines apply at the same time.
type sharedModels struct {
	imputer *preprocessing.FloatImputer
	scaler  *preprocessing.Scaler
	onehot  *preprocessing.OneHotEncoder
	auto    *preprocessing.AutoPreprocessor
	hash    *preprocessing.HashEncoder
	model   *algorithms.LinearRegressor
	theme   []string // the only kinds of jobs, if there are any
}

func TestC31_Sharing(t *testing.T) {
	Prop(t, "2 to 6 goroutines each run a random program (views, masks, reads, transformations by shared fitted components, training of own components, changes of own views, writing) on one shared view; each must see what it sees alone; one shard runs with the race detector; non-trivial: at least 2 rows, and 2 different jobs or several times the same one at the same time", 150, func(c *Case) {
		tab := genTable(c, tabOpts{kinds: "fibso", force: pick(c, "force", "fsi", "f", "s", "i"), maxCols: 6, minRows: 1, maxRows: 120, finite: true, names: append(plainNames[:8:8], "é")})
		for _, name := range tab.names("i") {
			for i, v := range tab.cols[name].vals {
				if x := v.(int); x > 1<<40 || x < -1<<40 || i == 0 {
					tab.cols[name].vals[i] = 3
				}
			}
		}
		c.D("table %s", tab)
		root := build(c, tab)
		df, tt := derive(c, root, tab, viewOpts{repeat: true, maxOps: 3, minRows: 1})
		if c.Int("longer", 0, 3) == 0 { // a view with more rows than its dataframe
			idx := seq(0, tt.n)
			for i := c.Int("by", 1, tt.n+2); i > 0; i-- {
				idx = append(idx, i%tt.n)
			}
			df, tt = df.IndexView(idx), tt.rows(idx)
			c.D("  .IndexView(%s)", showIdx(idx))
		}
		df.SetMaxCPU(genCPU(c))
		df.ThreadSafeMasking(true)
		sm := &sharedModels{
			imputer: preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.Mean}),
			scaler:  preprocessing.NewScaler(preprocessing.ScalerOptions{MinMax: c.Chance("min-max", 3), Centering: true, Scaling: true}),
			onehot:  preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory, KeepUsedColumns: c.Chance("keep", 3)}),
			hash:    preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{}),
			auto:    preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true}),
		}
		for _, name := range tt.names("i") {
			if len(catOf(tt.cols[name].vals).vals) == 0 {
				return
			}
		}
		c.Risky()
		must(c, "Fit", sm.imputer.Fit(df))
		must(c, "Fit", sm.scaler.Fit(df))
		must(c, "Fit", sm.onehot.Fit(df))
		must(c, "Fit", sm.auto.Fit(df))
		must(c, "Fit", sm.hash.Fit(df))
		sm.model, _ = genModel(c, tt.names("fib"))
		k := c.Int("goroutines", 2, 6)
		if c.Bool("theme") {
			for i := c.Int("theme kinds", 1, 2); i > 0; i-- {
				sm.theme = append(sm.theme, pick(c, "theme kind", jobKinds...))
			}
		}
		// what each goroutine works on: the dataframe itself, or a view of it
		onto := make([]*dataframe.DataFrame, k)
		for i := range onto {
			how := pick(c, "onto", "itself", "itself", "View", "ShallowCopy", "SliceView", "ColumnView", "ColumnConcatView")
			c.D("goroutine %d: %s", i, how)
			switch how {
			case "itself":
				onto[i] = df
			case "View":
				onto[i] = df.View()
			case "ShallowCopy":
				onto[i] = df.ShallowCopy()
			case "SliceView":
				onto[i] = df.SliceView(0, tt.n)
			case "ColumnView":
				onto[i] = df.ColumnView(tt.all()...)
			case "ColumnConcatView":
				all := tt.all()
				v, err := dataframe.ColumnConcatView(df.ColumnView(all[0]), df.ColumnView(all...).View())
				if err == nil {
					c.Bad("ColumnConcatView of overlapping columns returns no error")
				}
				v = df
				if len(all) > 1 {
					v, err = dataframe.ColumnConcatView(df.ColumnView(all[0]), df.ColumnView(all[1:]...))
					must(c, "ColumnConcatView", err)
					v.ThreadSafeMasking(true)
				}
				onto[i] = v
			}
		}
		programs := make([][]job, k)
		kinds := map[string]bool{}
		for i := range programs {
			for s, m := 0, c.Int("jobs", 1, 3); s < m; s++ {
				j := genJob(c, tt, sm)
				programs[i] = append(programs[i], j)
				c.D("goroutine %d: %s", i, j.name)
				kinds[j.name] = true
			}
		}
		// what they see alone is found out before or after, because running a job
		// once might prepare something that later ones find done
		alone := make([][]string, k)
		runAlone := func() {
			for i, p := range programs {
				for _, j := range p {
					alone[i] = append(alone[i], j.run(onto[i]))
					c.expect("the shared dataframe after "+j.name, df, tt)
				}
			}
		}
		after := c.Bool("alone afterwards")
		if !after {
			runAlone()
		}
		c.Risky()
		got := make([][]string, k)
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := range programs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for _, j := range programs[i] {
					got[i] = append(got[i], j.run(onto[i]))
				}
			}(i)
		}
		close(start)
		wg.Wait()
		if after {
			runAlone()
		}
		for i := range programs {
			for s, j := range programs[i] {
				if got[i][s] != alone[i][s] {
					c.Bad("%s gives a different result while other goroutines use the dataframe:\n%s\nalone:\n%s", j.name, clip(got[i][s], 2000), clip(alone[i][s], 2000))
				}
			}
		}
		c.expect("the shared dataframe afterwards", df, tt)
		c.NT(tt.n >= 2 && (len(kinds) >= 2 || len(sm.theme) > 0))
	})
}

// leftovers waits until no library code is left running, and returns the
// goroutines that will never end.
func leftovers() string {
	for k := 0; ; k++ {
		libs, blocked, text := 0, 0, ""
		for _, g := range goroutines() {
			if g.lib || strings.Contains(g.text, "created by github.com/rom1mouret/") {
				libs++
				if blockedState(g.state) {
					blocked++
					text += g.text + "\n\n"
				}
			}
		}
		if libs == 0 {
			return ""
		}
		if libs == blocked && k > 20 {
			return text
		}
		time.Sleep(time.Duration(k) * time.Millisecond)
	}
}

func TestC31_NothingLeft(t *testing.T) {
	Prop(t, "a multi-threaded function runs, possibly with an error (malformed or missing files, failing readers and writers); afterwards no goroutine of the library may be blocked for ever; non-trivial: always", 150, func(c *Case) {
		what := pick(c, "function", "read", "read error", "pattern", "pattern error", "write error", "hash", "onehot error", "fit")
		c.D("%s", what)
		switch what {
		case "read", "read error":
			in := genCSV(c, 60)
			c.D("%s", in)
			var r io.Reader = strings.NewReader(in.text)
			if what == "read error" {
				at := c.Int("at", 0, len(in.text))
				c.D("fails at byte %d", at)
				r = io.MultiReader(strings.NewReader(in.text[:at]), failingReader{})
			}
			c.Risky()
			dataframe.FromCSV(r, in.spec)
		case "pattern", "pattern error":
			dir := scratch(c)
			defer os.RemoveAll(dir)
			k := c.Int("files", 2, 8)
			bad := -1
			if what == "pattern error" {
				bad = c.Int("bad", 0, k-1)
			}
			for i := 0; i < k; i++ {
				text := "a,b\n1,x\n2,y\n"
				if i == bad || (bad >= 0 && c.Chance("also bad", 3)) {
					text = pick(c, "text", "a,b\n1,\"x\n", "a,b\n1\n", "a,b\n1,x,3\n")
				}
				if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d.csv", i)), []byte(text), 0o600); err != nil {
					panic(err)
				}
			}
			spec := dataframe.CSVReadingSpec{MaxCPU: genCPU(c)}
			c.D("%d files, %d bad, %d CPUs", k, bad, spec.MaxCPU)
			c.Risky()
			_, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "*.csv"), spec)
			if (err != nil) != (bad >= 0) {
				c.Bad("error %v for %d malformed files", err, bad+1)
			}
		case "write error":
			f := genWritable(c)
			k := c.Int("writers", 1, 5)
			ws := make([]io.Writer, k)
			for i := range ws {
				ws[i] = &brokenWriter{room: c.Int("room", 0, 200)}
			}
			c.Risky()
			f.df.ToCSVs(ws, genWriting(c))
		case "hash":
			f := genFrame(c, tabOpts{force: "ss"}, viewOpts{repeat: true})
			c.Risky()
			f.df.HashStringsView(f.t.names("s")...)
		case "onehot error":
			tab := genTable(c, tabOpts{kinds: "i", force: "iii", minRows: 1})
			for _, col := range tab.cols {
				for i, v := range col.vals {
					if v.(int) == -1 {
						col.vals[i] = 0
					}
				}
			}
			c.D("%s", tab)
			df := build(c, tab)
			x := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.ReturnError, UnknownPolicy: preprocessing.ReturnError})
			must(c, "Fit", x.Fit(df))
			bad := df.DetachedView()
			for _, name := range tab.all() {
				if c.Bool("bad column") {
					bad.Ints(name).Set(c.Int("row", 0, tab.n-1), pick(c, "value", -1, 12345))
				}
			}
			c.Risky()
			x.TransformView(bad)
			if _, err := x.TransformView(df); err != nil {
				c.Bad("TransformView of the training data returns %v", err)
			}
		case "fit":
			train, _, _ := componentData(c, "auto")
			c.Risky()
			x := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true})
			x.FitTransform(train)
		}
		if s := leftovers(); s != "" {
			c.Bad("%s leaves goroutines that never end:\n%s", what, clip(s, 3000))
		}
		c.L(what)
		c.NT(true)
	})
}

type failingReader struct{}

func (failingReader) Read([]byte) (int, error) { return 0, fmt.Errorf("the disk is gone") }

// openFiles lists the files of a directory that this process has open.
func openFiles(dir string) (files []string) {
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if target, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(target, dir+"/") {
			files = append(files, target)
		}
	}
	return files
}

// Work that goes on for a while after the function has returned is seen by the
// files that it has not closed yet.
func TestC31_Unfinished(t *testing.T) {
	Prop(t, "a file pattern is read or files are written, some of which fail early while others are long; once the function has returned none of the files may be open any more; non-trivial: always", 4, func(c *Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		rows := c.Int("rows of the long files", 60000, 150000)
		k := c.Int("files", 2, 6)
		bad := c.Int("bad", 0, k-1)
		cpu := pick(c, "cpu", 2, 3, 4, 8, 100)
		c.NT(true)
		c.L("cpu %d", cpu)
		if c.Chance("write", 3) {
			df := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.SetFloats("a", make([]float64, rows)).ToDataFrame()
			df.SetMaxCPU(cpu)
			paths := make([]string, k)
			for i := range paths {
				paths[i] = filepath.Join(dir, fmt.Sprintf("%d.csv", i))
			}
			if c.Bool("full") {
				paths[bad] = "/dev/full"
			} else {
				paths[bad] = filepath.Join(dir, "no", "such")
			}
			c.D("%d rows are written to %q with %d CPUs", rows, paths, cpu)
			c.Risky()
			if df.ToCSVFiles(dataframe.CSVWritingSpec{}, paths...) == nil {
				c.Bad("ToCSVFiles returns no error")
			}
		} else {
			text := "a,b\n" + strings.Repeat("1.5,x\n", rows)
			for i := 0; i < k; i++ {
				this := text
				if i == bad {
					this = "a,b\n1\n"
				} else if c.Chance("short", 3) {
					this = text[:400*6+4]
				}
				if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d.csv", i)), []byte(this), 0o600); err != nil {
					panic(err)
				}
			}
			c.D("%d files of up to %d rows are read with %d CPUs, number %d being malformed", k, rows, cpu, bad)
			c.Risky()
			if _, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "*.csv"), dataframe.CSVReadingSpec{MaxCPU: cpu}); err == nil {
				c.Bad("FromCSVFilePattern returns no error")
			}
		}
		for deadline := time.Now().Add(20 * time.Millisecond); ; time.Sleep(time.Millisecond) {
			files := openFiles(dir)
			if len(files) == 0 {
				break
			}
			if time.Now().After(deadline) {
				c.Bad("after the function has returned, %q are still open", files)
			}
		}
	})
}
