package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"gonum.org/v1/gonum/mat"
)

// Many operations are stateless: what they return depends on what the dataframe
// holds at that moment, whatever was done before with the same dataframe, with
// the same component, or with the previous results. The tests of this file
// compare an operation on a dataframe (and component) with a history to the same
// operation on a dataframe of the same content (and component) without one.

// seen is what an operation returned.
type seen struct {
	text     string        // in a canonical form
	held     func() string // reads again the part of the result that belongs to the caller
	scribble func()        // writes over that part
}

// again is one kind of operation.
type again struct {
	name  string
	force string // kinds of the columns that it needs
	// make draws the parameters, and returns a maker of independent instances.
	make func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen
}

func obsText(df *dataframe.DataFrame) string {
	t, err := observe(df)
	if err != nil {
		return "error: " + err.Error()
	}
	return hashTable(t)
}

type crosstalk string

func scribbleOn(df *dataframe.DataFrame, names []string) {
	kinds := map[string]Kind{}
	if t, err := observe(df); err == nil {
		for n, col := range t.cols {
			kinds[n] = col.kind
		}
	}
	for _, name := range names {
		for i := 0; i < df.NumRows(); i++ {
			switch kinds[name] {
			case 'f':
				df.Floats(name).Set(i, -12345.5)
			case 'i':
				df.Ints(name).Set(i, -12345)
			case 'b':
				df.Bools(name).Set(i, !df.Bools(name).Get(i))
			case 's', 'o':
				df.Objects(name).Set(i, "scribbled")
			}
		}
	}
}

// dfSeen is the result of an operation that returns a dataframe, some columns
// of which are its own.
func dfSeen(res *dataframe.DataFrame, text string, own []string) seen {
	if text == "" {
		text = obsText(res)
	}
	s := seen{text: text}
	if len(own) > 0 {
		s.held = func() string {
			t, err := observe(res)
			if err != nil {
				return "error: " + err.Error()
			}
			return hashTable(t.only(own))
		}
		s.scribble = func() {
			for k, name := range sortedCopy(own) {
				if k >= 5 {
					break
				}
				before, err := observe(res)
				if err != nil {
					panic(err)
				}
				scribbleOn(res, []string{name})
				after, err := observe(res)
				if err != nil {
					panic(err)
				}
				if d := diff(after.without(name), before.without(name)); d != "" {
					panic(crosstalk(fmt.Sprintf("a write to column %q of the result changes another one: %s", name, d)))
				}
			}
			scribbleOn(res, own)
		}
	}
	return s
}

func stateless(f func(df *dataframe.DataFrame) seen) func() func(df *dataframe.DataFrame) seen {
	return func() func(df *dataframe.DataFrame) seen { return f }
}

func texts(dfs ...*dataframe.DataFrame) seen {
	out := ""
	for _, df := range dfs {
		out += obsText(df) + "\n"
	}
	return seen{text: out}
}

func failed(err error) seen { return seen{text: "error: " + err.Error()} }

func orAll(names, all []string) []string {
	if len(names) == 0 {
		return all
	}
	return names
}

func newNames(res *dataframe.DataFrame, t *Table) (out []string) {
	for _, n := range res.Header().NameList() {
		if t.cols[n] == nil {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

var agains = map[string][]again{
	"C01": {
		{"IndexView", "", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			idx := genIndices(c, t.n, true)
			return stateless(func(df *dataframe.DataFrame) seen { return texts(df.IndexView(append([]int(nil), idx...))) })
		}},
		{"SliceView", "", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			a := c.Int("from", 0, t.n)
			b := c.Int("to", a, t.n)
			return stateless(func(df *dataframe.DataFrame) seen { return texts(df.SliceView(a, b), df.ReverseView()) })
		}},
		{"MaskView", "", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			mod, off, zero := c.Int("mod", 1, 4), c.Int("off", 0, 3), c.Bool("zero mask")
			return stateless(func(df *dataframe.DataFrame) seen {
				m := df.EmptyMask()
				if zero {
					m = df.ZeroMask()
				}
				for i := range m {
					if i%mod == off {
						m[i] = true
					} else if !zero {
						m[i] = false
					}
				}
				return texts(df.MaskView(m))
			})
		}},
		{"ResetIndexView", "", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			return stateless(func(df *dataframe.DataFrame) seen {
				got, err := observe(df.ResetIndexView())
				if err != nil {
					return failed(err)
				}
				return seen{text: rowMultiset(got)}
			})
		}},
	},
	"C04": {
		{"SplitNView", "", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			k := c.Int("n", 1, 5)
			return stateless(func(df *dataframe.DataFrame) seen { return texts(df.SplitNView(k)...) })
		}},
		{"SplitView", "", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			k := c.Int("size", 1, 9)
			return stateless(func(df *dataframe.DataFrame) seen { return texts(df.SplitView(k)...) })
		}},
		{"SplitTrainTestViews", "", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			r := pick(c, "ratio", 0.25, 0.1, 0.5, 0.9)
			return stateless(func(df *dataframe.DataFrame) seen { a, b := df.SplitTrainTestViews(r); return texts(a, b) })
		}},
	},
	"C05": {
		{"SortedView", "f", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			names := t.names("fib")
			name := names[c.Int("by", 0, len(names)-1)]
			return stateless(func(df *dataframe.DataFrame) seen {
				res := df.SortedView(name)
				got, err := observe(res)
				if err != nil {
					return failed(err)
				}
				return seen{text: obsText(res.ColumnView(name)) + rowMultiset(got)}
			})
		}},
		{"TopView", "i", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			names := t.names("fib")
			name := names[c.Int("by", 0, len(names)-1)]
			k, asc := c.Int("n", 0, t.n), c.Bool("asc")
			return stateless(func(df *dataframe.DataFrame) seen { return texts(df.TopView(name, k, asc, true).ColumnView(name)) })
		}},
	},
	"C06": {
		{"RowConcat", "", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			how := c.Int("operands", 0, 2)
			return stateless(func(df *dataframe.DataFrame) seen {
				dfs := []*dataframe.DataFrame{df, df.ReverseView()}
				if how == 1 {
					dfs = []*dataframe.DataFrame{df, df}
				} else if how == 2 {
					dfs = []*dataframe.DataFrame{df}
				}
				res, err := dataframe.RowConcat(dfs...)
				if err != nil {
					return failed(err)
				}
				own := res.Header().NameList()
				if how == 2 {
					own = nil // sharing with the only operand is not ruled out
				}
				return dfSeen(res, "", own)
			})
		}},
	},
	"C07": {
		{"ColumnCopyConcat", "ff", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			return stateless(func(df *dataframe.DataFrame) seen {
				names := sortedCopy(df.Header().NameList())
				res, err := dataframe.ColumnCopyConcat(df.ColumnView(names[0]), df.ColumnView(names[1:]...))
				if err != nil {
					return failed(err)
				}
				return dfSeen(res, "", names)
			})
		}},
		{"ColumnConcatView", "ff", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			smart := c.Bool("smart")
			return stateless(func(df *dataframe.DataFrame) seen {
				names := sortedCopy(df.Header().NameList())
				f := dataframe.ColumnConcatView
				if smart {
					f = dataframe.ColumnSmartConcat
				}
				res, err := f(df.ColumnView(names[0]), df.ColumnView(names[1:]...))
				if err != nil {
					return failed(err)
				}
				return texts(res)
			})
		}},
	},
	"C09": {
		{"Encode", "s", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			e := encodings[c.Int("encoding", 0, len(encodings)-1)].e
			return stateless(func(df *dataframe.DataFrame) seen {
				v := df.DetachedView()
				if err := v.Encode(e); err != nil {
					return dfSeen(v, "not encodable"+obsText(v), v.StringHeader().NameList())
				}
				s := obsText(v)
				if err := v.Encode(nil); err != nil {
					return failed(err)
				}
				return dfSeen(v, s+obsText(v), v.StringHeader().NameList())
			})
		}},
	},
	"C13": {
		{"ToCSVs", "s", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			k := c.Int("writers", 1, 4)
			spec := dataframe.CSVWritingSpec{MaintainOrder: true}
			return stateless(func(df *dataframe.DataFrame) seen {
				out := ""
				for _, name := range orAll(sortedCopy(append(df.FloatHeader().And(df.IntHeader(), df.BoolHeader()).NameList(), df.StringHeader().NameList()...)), nil) {
					bufs := make([]bytes.Buffer, k)
					ws := make([]io.Writer, k)
					for i := range bufs {
						ws[i] = &bufs[i]
					}
					if err := df.ColumnView(name).ToCSVs(ws, spec); err != nil {
						return failed(err)
					}
					for i := range bufs {
						out += bufs[i].String() + "\x00"
					}
				}
				var buf bytes.Buffer
				all := df.ColumnView(append(df.FloatHeader().And(df.IntHeader(), df.BoolHeader()).NameList(), df.StringHeader().NameList()...)...)
				if err := all.To1CSV(&buf, spec); err != nil {
					return failed(err)
				}
				return seen{text: out + fmt.Sprint(buf.Len())}
			})
		}},
	},
	"C16": {
		{"CopyValuesToInterfaces", "f", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			return stateless(func(df *dataframe.DataFrame) seen {
				var all [][]interface{}
				for _, name := range sortedCopy(df.Header().NameList()) {
					all = append(all, df.CopyValuesToInterfaces(name))
				}
				return sliceSeen(all, nil)
			})
		}},
		{"VecDense", "f", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			return stateless(func(df *dataframe.DataFrame) seen {
				out := ""
				var copies [][]float64
				for _, name := range sortedCopy(df.FloatHeader().NameList()) {
					v, w := df.Floats(name).VecDense(), df.Floats(name).VecDenseCopy()
					for i := 0; i < v.Len(); i++ {
						out += showVal(v.AtVec(i)) + " "
					}
					copies = append(copies, w.RawVector().Data)
				}
				s := sliceSeen(nil, copies)
				s.text += out
				return s
			})
		}},
	},
	"C17": {
		{"DenseMatrix", "f", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			names := orAll(subset(c, t.names("fib")), t.names("f"))
			return func() func(df *dataframe.DataFrame) seen {
				bat := dataframe.NewDense64Batching(names)
				return func(df *dataframe.DataFrame) seen {
					m := bat.DenseMatrix(df)
					s := seen{text: matText(m)}
					s.scribble = func() {
						for {
							switch x := m.(type) {
							case mat.Transpose:
								m = x.Matrix
								continue
							case mat.Mutable:
								r, k := x.Dims()
								for i := 0; i < r*k; i++ {
									x.Set(i/k, i%k, -99)
								}
							}
							return
						}
					}
					return s
				}
			}
		}},
		{"Float32Iterator", "f", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			names := orAll(subset(c, t.names("fib")), t.names("f"))
			stop := c.Int("rows read", 0, t.n+3)
			return func() func(df *dataframe.DataFrame) seen {
				var ite *dataframe.Float32Iterator
				return func(df *dataframe.DataFrame) seen {
					if ite == nil {
						ite = dataframe.NewFloat32Iterator(df, names)
					} else {
						ite.Reset(df, true)
					}
					out := fmt.Sprintf("%q", ite.Columns())
					for k := 0; k < stop; k++ {
						row, i, _ := ite.NextRow() // the last result is about the memory layout
						if row == nil {
							out += "end"
							break
						}
						out += fmt.Sprint(i, row)
					}
					return seen{text: out}
				}
			}
		}},
	},
	"C18": {
		{"HashStringsView", "ss", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			cols := subset(c, t.names("s"))
			return stateless(func(df *dataframe.DataFrame) seen {
				return dfSeen(df.HashStringsView(cols...), "", cols)
			})
		}},
		{"HashEncoder", "ss", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			return func() func(df *dataframe.DataFrame) seen {
				x := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
				return func(df *dataframe.DataFrame) seen { return fitted(x.Fit, x.TransformView, x.TransformedColumns, df) }
			}
		}},
	},
	"C19": {{"FloatImputer", "ff", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
		p := preprocessing.FloatImputerOptions{Policy: pick(c, "policy", preprocessing.Mean, preprocessing.Zero)}
		return func() func(df *dataframe.DataFrame) seen {
			x := preprocessing.NewFloatImputer(p)
			return func(df *dataframe.DataFrame) seen {
				return fitted(x.Fit, inplace(x.TransformInplace, x.TransformedColumns), x.TransformedColumns, df)
			}
		}
	}}},
	"C20": {{"Scaler", "ff", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
		p := preprocessing.ScalerOptions{Centering: c.Bool("centering"), Scaling: c.Bool("scaling"), MinMax: c.Chance("minmax", 3)}
		inv := c.Bool("inverse")
		return func() func(df *dataframe.DataFrame) seen {
			x := preprocessing.NewScaler(p)
			return func(df *dataframe.DataFrame) seen {
				f := x.TransformInplace
				if inv {
					f = x.InverseTransformInplace
				}
				return fitted(x.Fit, inplace(f, x.TransformedColumns), x.TransformedColumns, df)
			}
		}
	}}},
	"C21": {{"OneHotEncoder", "ii", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
		p := preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory, KeepUsedColumns: c.Bool("keep")}
		return func() func(df *dataframe.DataFrame) seen {
			x := preprocessing.NewOneHotEncoder(p)
			return func(df *dataframe.DataFrame) seen { return fitted(x.Fit, x.TransformView, nil, df) }
		}
	}}},
	"C22": {{"AutoPreprocessor", "fs", autoAgain(false)}},
	"C23": {
		{"AutoPreprocessor.FitTransform", "fs", autoAgain(true)},
		{"components", "fsi", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
			which := c.Int("component", 0, 3)
			return func() func(df *dataframe.DataFrame) seen {
				im := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.Mean})
				sc := preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
				oh := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
				he := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
				// trained once, on the first dataframe: only the transformations are repeated
				done := false
				return func(df *dataframe.DataFrame) seen {
					fit := func(f func(df *dataframe.DataFrame) error) func(df *dataframe.DataFrame) error {
						return func(df *dataframe.DataFrame) error {
							if done {
								return nil
							}
							done = true
							return f(buildPlain(t, 1))
						}
					}
					switch which {
					case 0:
						return fitted(fit(im.Fit), inplace(im.TransformInplace, im.TransformedColumns), im.TransformedColumns, df)
					case 1:
						return fitted(fit(sc.Fit), inplace(sc.TransformInplace, sc.TransformedColumns), sc.TransformedColumns, df)
					case 2:
						return fitted(fit(oh.Fit), oh.TransformView, nil, df)
					}
					return fitted(fit(he.Fit), he.TransformView, he.TransformedColumns, df)
				}
			}
		}},
	},
	"C24": {{"JSON", "fi", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
		auto := c.Bool("auto")
		return func() func(df *dataframe.DataFrame) seen {
			sc := preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
			im := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.Mean})
			ap := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true})
			// instances that are loaded over and over again
			sc2, im2, ap2 := new(preprocessing.Scaler), new(preprocessing.FloatImputer), new(preprocessing.AutoPreprocessor)
			return func(df *dataframe.DataFrame) seen {
				if auto {
					if err := ap.Fit(df); err != nil {
						return failed(err)
					}
					ap2 = new(preprocessing.AutoPreprocessor)
					if err := roundTrip(ap, ap2); err != nil {
						return failed(err)
					}
					return fitted(nil, ap2.TransformView, nil, df)
				}
				if err := sc.Fit(df); err != nil {
					return failed(err)
				}
				if err := im.Fit(df); err != nil {
					return failed(err)
				}
				sc2, im2 = new(preprocessing.Scaler), new(preprocessing.FloatImputer)
				for _, err := range []error{roundTrip(sc, sc2), roundTrip(im, im2)} {
					if err != nil {
						return failed(err)
					}
				}
				b, err := json.Marshal(sc2)
				if err != nil {
					return failed(err)
				}
				s := fitted(nil, inplace(sc2.TransformInplace, sc2.TransformedColumns), sc2.TransformedColumns, df)
				s.text += string(b)
				return s
			}
		}
	}}},
	"C25": {{"Predict", "ff", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
		m, _ := genModel(c, t.names("fb"))
		col := pick(c, "result column", "y_pred", "y")
		return stateless(func(df *dataframe.DataFrame) seen {
			res, err := m.Predict(df, col)
			if err != nil {
				return failed(err)
			}
			got, err := observe(res)
			if err != nil {
				return failed(err)
			}
			return dfSeen(res, rowMultiset(got), []string{col})
		})
	}}},
	"C27": {{"metrics", "ff", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
		names := t.names("f")
		return stateless(func(df *dataframe.DataFrame) seen {
			a, b := df.Floats(names[0]), df.Floats(names[1])
			return seen{text: fmt.Sprint(algorithms.MSE(a, b), algorithms.MAE(a, b), algorithms.MSE(b, a))}
		})
	}}},
	"C28": {{"LabelToInt", "s", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
		names := t.names("s")
		return stateless(func(df *dataframe.DataFrame) seen {
			var s seen
			var ints [][]int
			var maps []map[string]int
			for _, name := range names {
				a, m := df.LabelToInt(name)
				ints, maps = append(ints, a), append(maps, m)
			}
			s.held = func() string {
				out := fmt.Sprint(ints)
				for _, m := range maps {
					var l []string
					for k, v := range m {
						l = append(l, fmt.Sprintf("%q=%d", k, v))
					}
					out += fmt.Sprint(sortedCopy(l))
				}
				return out
			}
			s.text = s.held()
			s.scribble = func() {
				for i := range ints {
					for j := range ints[i] {
						ints[i][j] = 77
					}
					for k := range maps[i] {
						maps[i][k] = 78
					}
					maps[i]["scribbled"] = 5
				}
			}
			return s
		})
	}}},
	"C33": {{"headers", "fs", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
		return stateless(func(df *dataframe.DataFrame) seen {
			hs := []dataframe.ColumnHeader{df.Header(), df.FloatHeader(), df.IntHeader(), df.BoolHeader(), df.ObjectHeader(), df.StringHeader(), df.FloatHeader().And(df.IntHeader())}
			s := seen{}
			s.held = func() string {
				out := ""
				for _, h := range hs {
					out += fmt.Sprintf("%d%q", h.Num(), sortedCopy(h.NameList()))
				}
				return out
			}
			s.text = s.held() + fmt.Sprint(df.NumColumns(), df.NumRows())
			s.scribble = func() {
				for _, h := range hs {
					l := h.NameList()
					for i := range l {
						l[i] = "scribbled"
					}
				}
			}
			return s
		})
	}}},
	"C34": {{"printing", "fs", func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
		k := c.Int("n", 0, 6)
		return stateless(func(df *dataframe.DataFrame) seen {
			// the order of the columns is not specified
			summary := ""
			for _, line := range strings.Split(capture(func() { df.PrintSummary() }), "\n") {
				switch strings.SplitN(line, " ", 2)[0] { // the rest is about sharing
				case "float", "int", "bool", "object", "string", "rows":
					summary += line + "\n"
				}
			}
			l := strings.FieldsFunc(summary, func(r rune) bool { return strings.ContainsRune("[] \n", r) })
			out := strings.Join(sortedCopy(l), "\n")
			for _, name := range sortedCopy(df.Header().NameList()) {
				out += capture(func() { df.ColumnView(name).PrintHead(k, "%.3f") })
			}
			short := df.GoodShortNames(3)
			for _, name := range sortedCopy(df.Header().NameList()) {
				out += fmt.Sprintf("%q", short[name])
			}
			return seen{text: out}
		})
	}}},
}

func autoAgain(fitTransform bool) func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
	return func(c *Case, t *Table) func() func(df *dataframe.DataFrame) seen {
		p := preprocessing.AutoPreprocOptions{Imputing: c.Bool("imputing"), Scaling: c.Bool("scaling")}
		return func() func(df *dataframe.DataFrame) seen {
			x := preprocessing.NewAutoPreprocessor(p)
			return func(df *dataframe.DataFrame) seen {
				if !fitTransform {
					return fitted(x.Fit, x.TransformView, nil, df)
				}
				a := fitted(nil, func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) { return x.FitTransform(df), nil }, nil, df)
				b := fitted(nil, x.TransformView, nil, df)
				if a.scribble == nil || b.held == nil {
					return seen{text: a.text + "\n" + b.text}
				}
				return seen{text: a.text + "\n" + b.text, held: b.held, scribble: func() {
					before := b.held()
					a.scribble()
					if after := b.held(); after != before {
						panic(crosstalk("a write to the result of FitTransform changes that of TransformView:\n" + after + "\nwas\n" + before))
					}
				}}
			}
		}
	}
}

// fitted trains a component and applies it. All the columns that the training
// produced or replaced (transformed; nil: those that differ from df's) belong to
// the result.
func fitted(fit func(df *dataframe.DataFrame) error, transform func(df *dataframe.DataFrame) (*dataframe.DataFrame, error), transformed func() []string, df *dataframe.DataFrame) seen {
	if fit != nil {
		if err := fit(df); err != nil {
			return failed(err)
		}
	}
	before, err := observe(df)
	if err != nil {
		return failed(err)
	}
	res, err := transform(df)
	if err != nil {
		return failed(err)
	}
	t, err := observe(res)
	if err != nil {
		return failed(err)
	}
	// new columns are compared by content: how they are numbered depends on the
	// order of the categories
	added := newNames(res, before)
	text := hashTable(t.without(added...)) + classText(t, added)
	own := added
	for _, n := range t.names("fibs") {
		if b := before.cols[n]; b != nil && (b.kind != t.cols[n].kind || diff(t.only([]string{n}), before.only([]string{n})) != "") {
			own = append(own, n)
		}
	}
	if transformed != nil {
		own = nil
		for _, n := range transformed() {
			if t.cols[n] != nil {
				own = append(own, n)
			}
		}
	}
	s := dfSeen(res, text, own)
	return s
}

func classText(t *Table, added []string) string {
	var l []string
	for _, n := range added {
		l = append(l, fmt.Sprintf("%c", t.cols[n].kind)+hashTable(t.only([]string{n}).rename(n, "")))
	}
	return strings.Join(sortedCopy(l), "\n")
}

func matText(m mat.Matrix) string {
	r, k := m.Dims()
	out := fmt.Sprint(r, "x", k, ":")
	for i := 0; i < r; i++ {
		for l := 0; l < k; l++ {
			out += showVal(m.At(i, l)) + ","
		}
	}
	return out
}

func sliceSeen(a [][]interface{}, b [][]float64) seen {
	s := seen{}
	s.held = func() string {
		out := ""
		for _, l := range a {
			for _, v := range l {
				out += showVal(v) + " "
			}
			out += ";"
		}
		for _, l := range b {
			for _, v := range l {
				out += showVal(v) + " "
			}
			out += ";"
		}
		return out
	}
	s.text = s.held()
	s.scribble = func() {
		for _, l := range a {
			for i := range l {
				l[i] = "scribbled"
			}
		}
		for _, l := range b {
			for i := range l {
				l[i] = -12345
			}
		}
	}
	return s
}

const againRule = "an operation runs 2 to 4 times on one dataframe, whose cells or structure change in between, or on others of the same shape, with the same component; each time its result must be that of a new component on a new dataframe of the same content, and results that belong to the caller neither change later nor show through in others when they are written to; non-trivial: the content changed before a later run"

func againTest(t *testing.T, id string) {
	Prop(t, againRule, 150, func(c *Case) {
		kinds := agains[id]
		k := kinds[c.Int("operation", 0, len(kinds)-1)]
		o := tabOpts{kinds: "fibso", minCols: 1, maxCols: 5, minRows: 1, maxRows: 700, finite: true, force: k.force, names: append(plainNames[:8:8], "é", "x y")}
		if id == "C34" {
			o.kinds = "fibs" // objects print as addresses
		}
		gen := func(n int, like *Table) *Table {
			out := newTable(n)
			for _, name := range like.all() {
				kind := like.cols[name].kind
				vals := genVals(c, kind, n, &o)
				for i, v := range vals {
					switch x := v.(type) {
					case float64:
						vals[i] = math.Round(x*4) / 4 // sums are exact
						if math.Abs(x) > 1e6 {
							vals[i] = 1e6
						}
					case int:
						vals[i] = (x%7 + 7) % 7
					}
				}
				out.set(name, kind, vals)
			}
			return out
		}
		tab := genTable(c, o)
		tab = gen(tab.n, tab)
		for i := 0; id == "C19" && i < tab.n; i += 3 {
			tab.cols[tab.names("f")[0]].vals[i] = math.NaN()
		}
		if id == "C21" || id == "C23" || id == "C22" || id == "C24" {
			o.noNil = false
		}
		cpu := genCPU(c)
		c.D("%s on %s", k.name, tab)
		maker := k.make(c, tab)
		df := buildPlain(tab, cpu)
		if c.Bool("view") {
			if c.Bool("reversed") {
				df = buildPlain(tab.rows(reversed(seq(0, tab.n))), cpu).ReverseView()
			} else {
				df = df.View()
			}
		}
		df.SetMaxCPU(cpu)
		var others []*dataframe.DataFrame
		persistent := maker()
		type past struct {
			s    seen
			text string
		}
		var before []past
		changed := false
		scribble := func(round int, s seen) {
			p := panics(s.scribble)
			if x, ok := p.(crosstalk); ok {
				c.Bad("run %d of %s: %s", round+1, k.name, string(x))
			} else if p != nil {
				panic(p)
			}
		}
		for round, rounds := 0, c.Int("runs", 2, 4); round < rounds; round++ {
			on := df
			if round > 0 {
				switch what := pick(c, "in between", "cells", "cells", "one cell", "overwrite", "structure", "other", "nothing", "scribble"); what {
				case "cells", "one cell":
					cur, err := observe(df)
					if err != nil {
						c.Bad("%v", err)
					}
					w := df
					if c.Bool("through a view") {
						w = df.View()
					}
					next := gen(cur.n, cur)
					src := c.source(1000)
					for _, name := range cur.all() {
						for i := range cur.cols[name].vals {
							if what == "one cell" && (src.n(cur.n) != 0) {
								continue
							}
							changed = true
							switch v := next.cols[name].vals[i].(type) {
							case float64:
								w.Floats(name).Set(i, v)
							case int:
								if next.cols[name].kind == 'i' {
									w.Ints(name).Set(i, v)
								} else {
									w.Objects(name).Set(i, v)
								}
							case bool:
								w.Bools(name).Set(i, v)
							default:
								w.Objects(name).Set(i, v)
							}
						}
					}
					c.D("%s changed", what)
				case "overwrite":
					cur, err := observe(df)
					if err != nil {
						c.Bad("%v", err)
					}
					next := gen(cur.n, cur)
					for _, name := range subset(c, cur.all()) {
						overwrite(df, name, cur.cols[name].kind, next.cols[name].vals)
						changed = true
					}
					c.D("columns overwritten")
				case "structure":
					c.D("columns added, dropped and renamed")
					if df.Header().NameSet()["n1"] {
						df.Rename("n1", "n2"+strings.Repeat("x", round))
					} else {
						df.AllocFloats("n1")
						df.AllocStrings("n3" + strings.Repeat("x", round))
					}
					if round > 1 && c.Bool("drop") {
						for _, name := range df.Header().NameList() {
							if strings.HasPrefix(name, "n") {
								df.Drop(name)
							}
						}
					}
					changed = true
				case "other":
					cur, err := observe(df)
					if err != nil {
						c.Bad("%v", err)
					}
					next := gen(cur.n, cur)
					on = buildPlain(next, cpu)
					others = append(others, on)
					changed = true
					c.D("another dataframe: %s", next)
				case "scribble":
					for i := range before {
						if before[i].s.scribble != nil {
							scribble(i, before[i].s)
							if before[i].s.held != nil {
								before[i].text = before[i].s.held()
							}
							changed = true
						}
					}
					c.D("results written to")
				case "nothing":
					c.D("nothing changes")
				}
			}
			now, err := observe(on)
			if err != nil {
				c.Bad("%v", err)
			}
			for i, p := range before {
				if p.s.held != nil && p.s.held() != p.text {
					c.Bad("the result of run %d of %s has changed before run %d:\n%s\nwas\n%s", i+1, k.name, round+1, clip(p.s.held(), 2000), clip(p.text, 2000))
				}
			}
			c.Risky()
			got := persistent(on)
			want := maker()(buildPlain(now, cpu))
			if got.text != want.text {
				c.Bad("run %d of %s gives\n%s\nthe same on a new dataframe of the same content\n%s", round+1, k.name, clip(got.text, 2500), clip(want.text, 2500))
			}
			c.expect(fmt.Sprintf("the dataframe after run %d", round+1), on, now)
			for i, p := range before {
				if p.s.held != nil && p.s.held() != p.text {
					c.Bad("the result of run %d of %s was changed by run %d:\n%s\nwas\n%s", i+1, k.name, round+1, clip(p.s.held(), 2000), clip(p.text, 2000))
				}
			}
			p := past{s: got}
			if got.held != nil {
				p.text = got.held()
			}
			if got.scribble != nil && c.Bool("write to the result") {
				c.D("result of run %d written to", round+1)
				scribble(round, got)
				if got.held != nil {
					p.text = got.held()
				}
				c.expect("the dataframe after its result was written to", on, now)
			}
			before = append(before, p)
		}
		_ = others
		c.L(k.name)
		c.NT(changed)
	})
}

func TestC01_Again(t *testing.T) { againTest(t, "C01") }
func TestC04_Again(t *testing.T) { againTest(t, "C04") }
func TestC05_Again(t *testing.T) { againTest(t, "C05") }
func TestC06_Again(t *testing.T) { againTest(t, "C06") }
func TestC07_Again(t *testing.T) { againTest(t, "C07") }
func TestC09_Again(t *testing.T) { againTest(t, "C09") }
func TestC13_Again(t *testing.T) { againTest(t, "C13") }
func TestC16_Again(t *testing.T) { againTest(t, "C16") }
func TestC17_Again(t *testing.T) { againTest(t, "C17") }
func TestC18_Again(t *testing.T) { againTest(t, "C18") }
func TestC19_Again(t *testing.T) { againTest(t, "C19") }
func TestC20_Again(t *testing.T) { againTest(t, "C20") }
func TestC21_Again(t *testing.T) { againTest(t, "C21") }
func TestC22_Again(t *testing.T) { againTest(t, "C22") }
func TestC23_Again(t *testing.T) { againTest(t, "C23") }
func TestC24_Again(t *testing.T) { againTest(t, "C24") }
func TestC25_Again(t *testing.T) { againTest(t, "C25") }
func TestC27_Again(t *testing.T) { againTest(t, "C27") }
func TestC28_Again(t *testing.T) { againTest(t, "C28") }
func TestC33_Again(t *testing.T) { againTest(t, "C33") }
func TestC34_Again(t *testing.T) { againTest(t, "C34") }
