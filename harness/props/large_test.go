package props

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"golang.org/x/text/encoding/charmap"
)

// Large inputs: beyond the sizes (8, 16, 64, 256, 65536...) from which code may
// work in blocks, in parallel, with bit sets or with smaller integers. Values
// are functions of the row and the column, so that no table is needed.

type bigCol struct {
	name string
	kind Kind
	salt int
}

type bigFrame struct {
	df   *dataframe.DataFrame
	cols []bigCol
	rows []int // which row of the original each row is
	n    int   // rows of the original
	// number of different ints and strings
	distinct int
	missing  bool
}

func (b *bigFrame) mix(col bigCol, r int) int {
	x := uint64(r+1)*0x9E3779B97F4A7C15 ^ uint64(col.salt+1)*0xC2B2AE3D27D4EB4F
	x ^= x >> 31
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 29
	return int(x >> 1)
}
func (b *bigFrame) float(col bigCol, r int) float64 {
	m := b.mix(col, r)
	if b.missing && m%11 == 0 {
		return math.NaN()
	}
	return float64(m%200003-100001) / 8
}
func (b *bigFrame) int(col bigCol, r int) int {
	if b.distinct > 0 {
		return (r+col.salt)%b.distinct - b.distinct/3
	}
	m := b.mix(col, r)
	if m%2 == 0 {
		return -m
	}
	return m
}
func (b *bigFrame) bool(col bigCol, r int) bool { return b.mix(col, r)%3 == 0 }
func (b *bigFrame) str(col bigCol, r int) interface{} {
	m := b.mix(col, r)
	if b.missing && m%13 == 0 {
		return nil
	}
	if b.distinct > 0 {
		return "é" + strconv.Itoa((r+col.salt)%b.distinct)
	}
	return "s" + strconv.Itoa(m%1000003)
}
func (b *bigFrame) cell(col bigCol, r int) interface{} {
	switch col.kind {
	case 'f':
		return b.float(col, r)
	case 'i':
		return b.int(col, r)
	case 'b':
		return b.bool(col, r)
	}
	return b.str(col, r)
}

// column returns the values of a column, not selected by rows.
func (b *bigFrame) build() *dataframe.DataFrame {
	db := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
	for _, col := range b.cols {
		switch col.kind {
		case 'f':
			v := make([]float64, b.n)
			for r := range v {
				v[r] = b.float(col, r)
			}
			db = db.SetFloats(col.name, v)
		case 'i':
			v := make([]int, b.n)
			for r := range v {
				v[r] = b.int(col, r)
			}
			db = db.SetInts(col.name, v)
		case 'b':
			v := make([]bool, b.n)
			for r := range v {
				v[r] = b.bool(col, r)
			}
			db = db.SetBools(col.name, v)
		default:
			v := make([]interface{}, b.n)
			for r := range v {
				v[r] = b.str(col, r)
			}
			db = db.SetObjects(col.name, v)
			if col.kind == 's' {
				db = db.MarkAsString(col.name)
			}
		}
	}
	return db.ToDataFrame()
}

// genBig makes many rows of few columns, or a few rows of many columns.
func genBig(c *Case, kinds string, wide bool) *bigFrame {
	b := &bigFrame{missing: c.Bool("missing")}
	var ncols int
	salt := c.Int("salt", 0, 1000)
	if wide {
		ncols = pick(c, "columns", 65, 70, 129, 200, 257, 300)
		b.n = pick(c, "rows", 1, 2, 7, 130, 300)
	} else {
		ncols = c.Int("columns", 1, 4)
		b.n = pick(c, "rows", 10007, 16389, 20000, 33001, 65537, 66003, 70001)
	}
	if len(kinds) > ncols {
		ncols = len(kinds)
	}
	one := c.Bool("one kind")
	for i := 0; i < ncols; i++ {
		k := kinds[i%len(kinds)]
		if one && wide && i > len(kinds) {
			k = kinds[0]
		}
		b.cols = append(b.cols, bigCol{fmt.Sprintf("%c%d", k, i), Kind(k), salt + i})
	}
	b.distinct = pick(c, "distinct", 0, 3, 200)
	if sizeCap < 9 {
		b.n = 1 + b.n*(sizeCap+1)/11
	}
	b.df = b.build()
	b.df.SetMaxCPU(pick(c, "cpu", -1, 1, 2, 4, 8))
	b.rows = seq(0, b.n)
	how := pick(c, "state", "plain", "plain", "view", "reversed", "index", "mask", "slice")
	switch how {
	case "view":
		b.df = b.df.View()
	case "reversed":
		b.df, b.rows = b.df.ReverseView(), reversed(b.rows)
	case "index":
		m := b.n
		if c.Bool("longer") {
			m += b.n / 3
		}
		idx := make([]int, m)
		for j := range idx {
			idx[j] = (j*7919 + salt) % b.n
		}
		b.df, b.rows = b.df.IndexView(idx), idx
	case "mask":
		mask := b.df.ZeroMask()
		b.rows = nil
		for r := range mask {
			if r%5 != salt%5 || r == b.n-1 {
				mask[r] = true
				b.rows = append(b.rows, r)
			}
		}
		b.df = b.df.MaskView(mask)
	case "slice":
		from, to := b.n/9, b.n-b.n/11
		b.df, b.rows = b.df.SliceView(from, to), seq(from, to)
	}
	c.D("%d columns of %q, %d rows, salt %d, distinct %d, missing %v, one kind %v, %s: %d rows, %d CPUs", ncols, kinds, b.n, salt, b.distinct, b.missing, one, how, len(b.rows), b.df.ActualMaxCPU())
	c.NT(true)
	c.L("large: %v columns, %s", wide, how)
	return b
}

// bigCheck compares all the cells with the given rows and columns.
func (b *bigFrame) check(c *Case, what string, df *dataframe.DataFrame, rows []int, cols []bigCol) {
	c.Helper()
	if df.NumRows() != len(rows) {
		c.Bad("%s: %d rows instead of %d", what, df.NumRows(), len(rows))
	}
	if df.NumColumns() != len(cols) {
		c.Bad("%s: %d columns instead of %d", what, df.NumColumns(), len(cols))
	}
	for _, col := range cols {
		bad := func(j int, got, want interface{}) {
			c.Bad("%s: row %d of column %q is %v instead of %v", what, j, col.name, got, want)
		}
		switch col.kind {
		case 'f':
			a := df.Floats(col.name)
			for j, r := range rows {
				if g, w := a.Get(j), b.float(col, r); g != w && !(g != g && w != w) {
					bad(j, g, w)
				}
			}
		case 'i':
			a := df.Ints(col.name)
			for j, r := range rows {
				if g, w := a.Get(j), b.int(col, r); g != w {
					bad(j, g, w)
				}
			}
		case 'b':
			a := df.Bools(col.name)
			for j, r := range rows {
				if g, w := a.Get(j), b.bool(col, r); g != w {
					bad(j, g, w)
				}
			}
		default:
			a := df.Objects(col.name)
			for j, r := range rows {
				if g, w := a.Get(j), b.str(col, r); g != w {
					bad(j, g, w)
				}
			}
		}
	}
}

func (b *bigFrame) self(c *Case, what string) {
	c.Helper()
	b.check(c, what, b.df, b.rows, b.cols)
}

func (b *bigFrame) pickRows(idx []int) []int {
	out := make([]int, len(idx))
	for j, i := range idx {
		out[j] = b.rows[i]
	}
	return out
}

func (b *bigFrame) kind(k string) (cols []bigCol) {
	for _, col := range b.cols {
		if strings.Contains(k, string(col.kind)) {
			cols = append(cols, col)
		}
	}
	return
}

func colNames(cols []bigCol) (names []string) {
	for _, col := range cols {
		names = append(names, col.name)
	}
	return
}

// asNumber is the cell as the float that iterators and models see.
func (b *bigFrame) asNumber(col bigCol, r int) float64 {
	switch col.kind {
	case 'f':
		return b.float(col, r)
	case 'i':
		return float64(b.int(col, r))
	}
	if b.bool(col, r) {
		return 1
	}
	return 0
}

var larges = map[string][]func(c *Case){
	"C01": {func(c *Case) {
		b := genBig(c, "isf", false)
		n := len(b.rows)
		mask := b.df.ZeroMask()
		var idx []int
		for j := range mask {
			if b.mix(b.cols[0], j)%4 == 0 || j == n-1 {
				mask[j] = true
				idx = append(idx, j)
			}
		}
		b.check(c, "MaskView", b.df.MaskView(mask), b.pickRows(idx), b.cols)
		for j := range idx {
			idx[j] = b.mix(b.cols[0], j) % n
		}
		b.check(c, "IndexView", b.df.IndexView(idx), b.pickRows(idx), b.cols)
		b.check(c, "ReverseView", b.df.ReverseView(), reversed(b.rows), b.cols)
		b.check(c, "SliceView", b.df.SliceView(n/3, -5), b.rows[n/3:n-4], b.cols)
		// every row once
		id := dataframe.EmptyDataFrame(n, 2)
		id.OverwriteInts("id", seq(0, n))
		s := id.ShuffleView()
		if c.Bool("sample") {
			s = id.SampleView(n, false)
		}
		seen := make([]bool, n)
		for _, v := range s.CopyValuesToInterfaces("id") {
			if seen[v.(int)] {
				c.Bad("a shuffled view has row %d twice", v)
			}
			seen[v.(int)] = true
		}
		if s.NumRows() != n {
			c.Bad("a shuffled view of %d rows has %d", n, s.NumRows())
		}
		r := id.IndexView(b.rows[:n*2/3%n+1])
		_ = r
		b.self(c, "the dataframe afterwards")
	}},
	"C02": {func(c *Case) {
		b := genBig(c, "fibso", c.Bool("wide"))
		b.check(c, "Copy", b.df.Copy(), b.rows, b.cols)
		b.check(c, "ShallowCopy", b.df.ShallowCopy(), b.rows, b.cols)
		v := b.df.DetachedView()
		b.check(c, "DetachedView", v, b.rows, b.cols)
		cp := b.df.Copy()
		for _, df := range []*dataframe.DataFrame{v, cp} {
			for _, col := range b.cols {
				a := df.NumRows() - 1
				switch col.kind {
				case 'f':
					df.Floats(col.name).Set(a, 12345)
				case 'i':
					df.Ints(col.name).Set(a, 12345)
				case 'b':
					df.Bools(col.name).Set(a, !df.Bools(col.name).Get(a))
				default:
					df.Objects(col.name).Set(a, "other")
				}
			}
			b.self(c, "the dataframe after its copy was written to")
		}
		some := b.cols[:1+len(b.cols)*2/3]
		v = b.df.DetachedView(colNames(some)...)
		b.check(c, "DetachedView of some columns", v, b.rows, b.cols)
		if k := b.kind("f"); len(k) > 0 && contains(colNames(some), k[0].name) {
			v.Floats(k[0].name).Set(0, 54321)
			b.self(c, "the dataframe after a detached column was written to")
		}
	}},
	"C03": {func(c *Case) {
		b := genBig(c, "fibso", c.Chance("wide", 2))
		k := 1 + len(b.cols)/2
		if c.Bool("all") {
			k = len(b.cols)
		}
		var left, taken []bigCol
		for i, col := range b.cols {
			if (i*7+3)%len(b.cols) < k {
				taken = append(taken, col)
			} else {
				left = append(left, col)
			}
		}
		b.check(c, "ColumnView", b.df.ColumnView(colNames(taken)...), b.rows, taken)
		v := b.df.View()
		v.Drop(colNames(taken)...)
		b.check(c, "Drop", v, b.rows, left)
		v = b.df.View()
		var renamed []bigCol
		for _, col := range b.cols {
			v.Rename(col.name, "new "+col.name)
			renamed = append(renamed, bigCol{"new " + col.name, col.kind, col.salt})
		}
		b.check(c, "Rename", v, b.rows, renamed)
		v.AllocFloats(colNames(b.cols)...)
		if v.NumColumns() != 2*len(b.cols) {
			c.Bad("AllocFloats of %d columns: %d columns", len(b.cols), v.NumColumns())
		}
		ids := v.Floats(b.cols[len(b.cols)-1].name)
		for j := 0; j < ids.Size(); j++ {
			if ids.Get(j) != 0 {
				c.Bad("AllocFloats: row %d is %v", j, ids.Get(j))
			}
		}
		if ints := b.kind("i"); len(ints) > 0 {
			w := b.df.View()
			w.IntToFloats(colNames(ints)...)
			w.BoolToFloats(colNames(b.kind("b"))...)
			for _, col := range b.kind("ib") {
				a := w.Floats(col.name)
				for j, r := range b.rows {
					if a.Get(j) != b.asNumber(col, r) {
						c.Bad("conversion to floats: row %d of %q is %v instead of %v", j, col.name, a.Get(j), b.asNumber(col, r))
					}
				}
			}
		}
		b.self(c, "the dataframe after its views were changed")
	}},
	"C04": {func(c *Case) {
		b := genBig(c, "if", false)
		n := len(b.rows)
		k := pick(c, "parts", 2, 3, 7, 100, 257, 1000)
		check := func(what string, parts []*dataframe.DataFrame) {
			at := 0
			for i, p := range parts {
				if at+p.NumRows() > n {
					c.Bad("%s: too many rows in part %d", what, i)
				}
				b.check(c, fmt.Sprintf("%s: part %d", what, i), p, b.rows[at:at+p.NumRows()], b.cols)
				at += p.NumRows()
			}
			if at != n {
				c.Bad("%s: %d rows of %d", what, at, n)
			}
		}
		check(fmt.Sprintf("SplitNView(%d)", k), b.df.SplitNView(k))
		check(fmt.Sprintf("SplitView(%d)", n/k+1), b.df.SplitView(n/k+1))
		train, test := b.df.SplitTrainTestViews(1 / float64(k))
		check("SplitTrainTestViews", []*dataframe.DataFrame{train, test})
		if d := float64(test.NumRows()) - float64(n)/float64(k); d > 1 || d < -1 {
			c.Bad("SplitTrainTestViews(1/%d) of %d rows: the test part has %d", k, n, test.NumRows())
		}
	}},
	"C05": {func(c *Case) {
		b := genBig(c, "ifb", false)
		b.missing = false
		if k := c.Int("force no missing", 0, 1); k == 0 {
			b.df = b.build().IndexView(b.rows)
		} else {
			b.df = b.build().IndexView(b.rows) // NaN is for the other tests
		}
		col := b.cols[c.Int("by", 0, 2)]
		less := func(r, s int) bool {
			switch col.kind {
			case 'i':
				return b.int(col, r) < b.int(col, s)
			case 'f':
				return b.float(col, r) < b.float(col, s)
			}
			return !b.bool(col, r) && b.bool(col, s)
		}
		b.df.OverwriteInts("id", seq(0, len(b.rows)))
		// repeated rows share their cell
		last := map[int]int{}
		for j, r := range b.rows {
			last[r] = j
		}
		verify := func(what string, v *dataframe.DataFrame, n int, desc bool) {
			if v.NumRows() != n {
				c.Bad("%s: %d rows instead of %d", what, v.NumRows(), n)
			}
			ids := v.Ints("id")
			count := map[int]int{}
			for j := 0; j < n; j++ {
				r := b.rows[ids.Get(j)]
				count[r]++
				if j > 0 {
					p := b.rows[ids.Get(j-1)]
					if (!desc && less(r, p)) || (desc && less(p, r)) {
						c.Bad("%s: rows %d and %d are not in order", what, j-1, j)
					}
				}
			}
			if n == len(b.rows) {
				for _, r := range b.rows {
					count[r]--
				}
				for r, k := range count {
					if k != 0 {
						c.Bad("%s: row %d occurs too often or not often enough", what, r)
					}
				}
			}
		}
		verify("SortedView", b.df.SortedView(col.name), len(b.rows), false)
		n := len(b.rows) * 2 / 3
		verify("TopView ascending", b.df.TopView(col.name, n, true, true), n, false)
		verify("TopView descending", b.df.TopView(col.name, n, false, true), n, true)
		top := b.df.TopView(col.name, 100, false, true)
		all := b.df.SortedView(col.name).ReverseView()
		for j := 0; j < 100 && j < len(b.rows); j++ {
			x, y := b.rows[top.Ints("id").Get(j)], b.rows[all.Ints("id").Get(j)]
			if less(x, y) || less(y, x) {
				c.Bad("TopView: row %d is not the one of SortedView", j)
			}
		}
	}},
	"C06": {func(c *Case) {
		b := genBig(c, "fibso", c.Bool("wide"))
		k := c.Int("parts", 2, 4)
		var parts []*dataframe.DataFrame
		var rows []int
		for i := 0; i < k; i++ {
			if c.Bool("part") {
				m := len(b.rows) * (i + 1) / (k + 2)
				parts, rows = append(parts, b.df.SliceView(m, -1)), append(rows, b.rows[m:]...)
			} else {
				parts, rows = append(parts, b.df), append(rows, b.rows...)
			}
		}
		r, err := dataframe.RowConcat(parts...)
		must(c, "RowConcat", err)
		b.check(c, "RowConcat", r, rows, b.cols)
		raw := dataframe.MergeRawDataRows([]*dataframe.RawData{&b.df.RawData, &b.df.RawData})
		if raw.NumAllocatedRows() != 2*b.df.NumAllocatedRows() {
			c.Bad("MergeRawDataRows: %d rows", raw.NumAllocatedRows())
		}
		b.self(c, "the dataframe afterwards")
	}},
	"C07": {func(c *Case) {
		b := genBig(c, "fibso", c.Bool("wide"))
		k := 1 + c.Int("cut", 0, len(b.cols)-2)
		left, right := b.df.ColumnView(colNames(b.cols[:k])...), b.df.ColumnView(colNames(b.cols[k:])...)
		v, err := dataframe.ColumnConcatView(left, right)
		must(c, "ColumnConcatView", err)
		b.check(c, "ColumnConcatView", v, b.rows, b.cols)
		v, err = dataframe.ColumnCopyConcat(left, right.Copy())
		must(c, "ColumnCopyConcat", err)
		b.check(c, "ColumnCopyConcat", v, b.rows, b.cols)
		// one index differs, far away
		idx := seq(0, len(b.rows))
		if n := len(idx); n >= 2 {
			idx[n-1], idx[n-2] = idx[n-2], idx[n-1]
			v, err = dataframe.ColumnSmartConcat(left, right.IndexView(idx))
			must(c, "ColumnSmartConcat", err)
			b.check(c, "ColumnSmartConcat, the left part", v.ColumnView(colNames(b.cols[:k])...), b.rows, b.cols[:k])
			b.check(c, "ColumnSmartConcat, the right part", v.ColumnView(colNames(b.cols[k:])...), b.pickRows(idx), b.cols[k:])
		}
		if _, err := dataframe.ColumnConcatView(left, right, left); err == nil {
			c.Bad("ColumnConcatView of overlapping dataframes returns no error")
		}
	}},
	"C09": {func(c *Case) {
		b := genBig(c, "si", c.Bool("wide"))
		b.df = b.df.DetachedView()
		must(c, "Encode", b.df.Encode(charmap.ISO8859_1))
		for _, col := range b.kind("s") {
			a := b.df.Objects(col.name)
			for j, r := range b.rows {
				want := b.str(col, r)
				if s, ok := want.(string); ok {
					want = strings.Replace(s, "é", "\xe9", 1)
				}
				if a.Get(j) != want {
					c.Bad("Encode: row %d of %q is %q instead of %q", j, col.name, a.Get(j), want)
				}
			}
		}
		must(c, "Encode", b.df.Encode(nil))
		b.self(c, "after two conversions")
	}},
	"C10": {func(c *Case) {
		wide := c.Bool("wide")
		rows, cols := pick(c, "rows", 5001, 10001, 20011, 66001), c.Int("columns", 1, 3)
		if wide {
			rows, cols = pick(c, "rows", 1, 3, 40), pick(c, "columns", 65, 129, 257, 300)
		}
		if sizeCap < 9 {
			rows = 2 + rows*(sizeCap+1)/11
		}
		kinds := make([]byte, cols)
		odd := pick(c, "odd cell", "2", "0.5", "word", "-1", "1e400", "true")
		oddRow := pick(c, "odd row", rows-1, 0, rows/2, rows*9/10)
		oddCol := c.Int("odd column", 0, cols-1)
		missing := c.Bool("missing")
		salt := c.Int("salt", 0, 100)
		for j := range kinds {
			kinds[j] = pick(c, "kind", []byte("bif")...)
		}
		c.D("%d rows, columns %q, %q in row %d of column %d, missing %v, salt %d", rows, kinds, odd, oddRow, oddCol, missing, salt)
		var sb strings.Builder
		var header []string
		for j := range kinds {
			header = append(header, fmt.Sprint("c", j))
		}
		sb.WriteString(strings.Join(header, ",") + "\n")
		cells := make([][]string, cols)
		for i := 0; i < rows; i++ {
			for j, k := range kinds {
				m := (i*7 + j*13 + salt) % 1009
				cell := ""
				switch {
				case i == oddRow && j == oddCol:
					cell = odd
				case missing && k != 'b' && m%17 == 3:
					cell = "?"
				case k == 'b':
					cell = strconv.Itoa(m % 2)
				case k == 'i':
					cell = strconv.Itoa(m - 400)
				default:
					cell = strconv.FormatFloat(float64(m)/8-20, 'g', -1, 64)
				}
				cells[j] = append(cells[j], cell)
				if j > 0 {
					sb.WriteByte(',')
				}
				sb.WriteString(cell)
			}
			sb.WriteByte('\n')
		}
		raw, err := dataframe.FromCSV(strings.NewReader(sb.String()), dataframe.CSVReadingSpec{MissingValues: []string{"?"}, MaxCPU: genCPU(c)})
		must(c, "FromCSV", err)
		df := raw.ToDataFrame()
		if df.NumRows() != rows || df.NumColumns() != cols {
			c.Bad("FromCSV: %d rows, %d columns", df.NumRows(), df.NumColumns())
		}
		for j, h := range header {
			isB, isI, isF := true, true, true
			for _, s := range cells[j] {
				if _, err := strconv.ParseBool(s); err != nil {
					isB = false
				}
				if s == "?" {
					continue
				}
				if _, err := strconv.ParseInt(s, 10, 64); err != nil {
					isI = false
				}
				if _, err := strconv.ParseFloat(s, 64); err != nil {
					isF = false
				}
			}
			vals := df.CopyValuesToInterfaces(h)
			for i, s := range cells[j] {
				var want interface{}
				switch {
				case isB:
					want, _ = strconv.ParseBool(s)
				case isI:
					want = -1
					if s != "?" {
						want, _ = strconv.Atoi(s)
					}
				case isF:
					want = math.NaN()
					if s != "?" {
						want, _ = strconv.ParseFloat(s, 64)
					}
				case s != "?":
					want = s
				}
				if !sameVal(vals[i], want) {
					c.Bad("FromCSV: row %d of column %d is %v (%T) instead of %v (%T)", i, j, vals[i], vals[i], want, want)
				}
			}
		}
		c.NT(true)
	}},
	"C13": {func(c *Case) {
		b := genBig(c, "fibs", c.Bool("wide"))
		b.self(c, "the dataframe")
		var buf bytes.Buffer
		o := dataframe.CSVWritingSpec{MaintainOrder: true, StringMissingMarker: "<none>"}
		must(c, "To1CSV", b.df.To1CSV(&buf, o))
		rd := csv.NewReader(&buf)
		header, err := rd.Read()
		must(c, "reading", err)
		if !sameNames(header, colNames(b.cols)) {
			c.Bad("To1CSV: the header is %q", header)
		}
		by := map[string]bigCol{}
		for _, col := range b.cols {
			by[col.name] = col
		}
		recs, err := rd.ReadAll()
		must(c, "reading", err)
		if len(recs) != len(b.rows) {
			c.Bad("To1CSV: %d rows instead of %d", len(recs), len(b.rows))
		}
		for j, rec := range recs {
			for k, s := range rec {
				want := b.cell(by[header[k]], b.rows[j])
				ok := false
				switch w := want.(type) {
				case nil:
					ok = s == "<none>"
				case string:
					ok = s == w
				case int:
					ok = s == strconv.Itoa(w)
				case bool:
					ok = s == strconv.FormatBool(w)
				case float64:
					f, err := strconv.ParseFloat(s, 64)
					ok = err == nil && (f == w || f != f && w != w)
				}
				if !ok {
					c.Bad("To1CSV: row %d of %q is %q instead of %v", j, header[k], s, want)
				}
			}
		}
	}},
	"C16": {func(c *Case) {
		b := genBig(c, "fibs", c.Bool("wide"))
		cp := b.df.Copy()
		rows := reversed(b.rows)
		n := len(rows)
		for _, col := range b.cols {
			switch col.kind {
			case 'f':
				v := make([]float64, n)
				for j, r := range rows {
					v[j] = b.float(col, r)
				}
				cp.OverwriteFloats64(col.name, v)
			case 'i':
				v := make([]int, n)
				for j, r := range rows {
					v[j] = b.int(col, r)
				}
				cp.OverwriteInts(col.name, v)
			case 'b':
				v := make([]bool, n)
				for j, r := range rows {
					v[j] = b.bool(col, r)
				}
				cp.OverwriteBools(col.name, v)
			default:
				v := make([]interface{}, n)
				for j, r := range rows {
					v[j] = b.str(col, r)
				}
				cp.OverwriteObjects(col.name, v, dataframe.StringObject)
			}
		}
		b.check(c, "after the columns were overwritten", cp, rows, b.cols)
		b.self(c, "the dataframe")
		for _, col := range b.cols {
			vals := cp.CopyValuesToInterfaces(col.name)
			for j, r := range rows {
				if !sameVal(vals[j], b.cell(col, r)) {
					c.Bad("CopyValuesToInterfaces: row %d of %q is %v instead of %v", j, col.name, vals[j], b.cell(col, r))
				}
			}
		}
	}},
	"C17": {func(c *Case) {
		b := genBig(c, pick(c, "kinds", "fib", "bif", "f", "b", "ibfbb"), c.Bool("wide"))
		b.missing = false
		other := *b
		for i := range other.cols {
			other.cols = append([]bigCol(nil), other.cols...)
			other.cols[i].salt += 5000
		}
		b.df = b.build().IndexView(b.rows)
		other.rows = seq(0, other.n)
		other.df = other.build()
		names := colNames(b.cols)
		dense := dataframe.NewDense64Batching(names)
		ite := dataframe.NewFloat32Iterator(b.df, names)
		for round, x := range []*bigFrame{&other, b, &other} {
			m := dense.DenseMatrix(x.df)
			if r, k := m.Dims(); r != len(x.rows) || k != len(names) {
				c.Bad("DenseMatrix: %d x %d instead of %d x %d", r, k, len(x.rows), len(names))
			}
			ite.Reset(x.df, true)
			for j, r := range x.rows {
				row, _, _ := ite.NextRow()
				if len(row) != len(names) {
					c.Bad("NextRow: row %d has %d values instead of %d", j, len(row), len(names))
				}
				for k, col := range x.cols {
					want := x.asNumber(col, r)
					if m.At(j, k) != want {
						c.Bad("DenseMatrix, round %d: row %d of %q is %v instead of %v", round, j, col.name, m.At(j, k), want)
					}
					if row[k] != float32(want) {
						c.Bad("NextRow, round %d: row %d of %q is %v instead of %v", round, j, col.name, row[k], float32(want))
					}
				}
			}
			if row, _, _ := ite.NextRow(); row != nil {
				c.Bad("NextRow: there is a row after the last")
			}
		}
	}},
	"C18": {func(c *Case) {
		b := genBig(c, "si", c.Bool("wide"))
		v := b.df.HashStringsView(colNames(b.kind("s"))...)
		if v.NumRows() != len(b.rows) || v.NumColumns() != len(b.cols) {
			c.Bad("HashStringsView: %d rows, %d columns", v.NumRows(), v.NumColumns())
		}
		of, back := map[interface{}]int{}, map[int]interface{}{}
		for _, col := range b.kind("s") {
			a := v.Ints(col.name)
			for j, r := range b.rows {
				s, h := b.str(col, r), a.Get(j)
				if s == nil != (h == -1) {
					c.Bad("HashStringsView: the hash of %v is %d", s, h)
				}
				if k, known := of[s]; known && k != h {
					c.Bad("HashStringsView: %v has the hashes %d and %d", s, k, h)
				}
				if t, known := back[h]; known && t != s {
					c.Bad("HashStringsView: %v and %v have the same hash", s, t)
				}
				of[s], back[h] = h, s
			}
		}
		b.self(c, "the dataframe")
	}},
	"C19": {func(c *Case) {
		b := genBig(c, "ffi", c.Bool("wide"))
		imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.Mean})
		must(c, "Fit", imp.Fit(b.df))
		v := b.df.DetachedView()
		must(c, "TransformInplace", imp.TransformInplace(v))
		for _, col := range b.kind("f") {
			sum, n := 0.0, 0
			for _, r := range b.rows {
				if x := b.float(col, r); x == x {
					sum += x // multiples of 1/8: exact
					n++
				}
			}
			a := v.Floats(col.name)
			for j, r := range b.rows {
				want := b.float(col, r)
				if want != want && n > 0 {
					want = sum / float64(n)
				} else if want != want {
					want = a.Get(j) // no value at all
				}
				if g := a.Get(j); g != want && math.Abs(g-want) > 1e-9*math.Abs(want)+1e-9 {
					c.Bad("FloatImputer: row %d of %q is %v instead of %v", j, col.name, g, want)
				}
			}
		}
		b.self(c, "the dataframe")
	}},
	"C20": {func(c *Case) {
		b := genBig(c, "ffi", c.Bool("wide"))
		minmax := c.Bool("minmax")
		s := preprocessing.NewScaler(preprocessing.ScalerOptions{MinMax: minmax, Centering: true, Scaling: true})
		must(c, "Fit", s.Fit(b.df))
		v := b.df.DetachedView()
		must(c, "TransformInplace", s.TransformInplace(v))
		for _, col := range b.kind("f") {
			var xs []float64
			for _, r := range b.rows {
				if x := b.float(col, r); x == x {
					xs = append(xs, x)
				}
			}
			if len(xs) < 2 {
				continue
			}
			shift, scale := 0.0, 1.0
			sort.Float64s(xs)
			if xs[0] == xs[len(xs)-1] {
				continue
			}
			if minmax {
				shift, scale = xs[0], xs[len(xs)-1]-xs[0]
			} else {
				sum, sq := 0.0, 0.0
				for _, x := range xs {
					sum += x
				}
				shift = sum / float64(len(xs))
				for _, x := range xs {
					sq += (x - shift) * (x - shift)
				}
				scale = math.Sqrt(sq / float64(len(xs)))
			}
			a := v.Floats(col.name)
			for j, r := range b.rows {
				x := b.float(col, r)
				want, g := (x-shift)/scale, a.Get(j)
				if x != x && g == g || x == x && !(math.Abs(g-want) <= 1e-7) {
					c.Bad("Scaler: row %d of %q is %v instead of %v", j, col.name, g, want)
				}
			}
		}
		must(c, "InverseTransformInplace", s.InverseTransformInplace(v))
		for _, col := range b.kind("f") {
			a := v.Floats(col.name)
			for j, r := range b.rows {
				if x, g := b.float(col, r), a.Get(j); x != x && g == g || x == x && !(math.Abs(g-x) <= 1e-7*(1+math.Abs(x))) {
					c.Bad("Scaler, inverse: row %d of %q is %v instead of %v", j, col.name, g, x)
				}
			}
		}
		b.self(c, "the dataframe")
	}},
	"C21": {func(c *Case) {
		// many categories, many columns or many rows
		what := pick(c, "what", "categories", "columns", "rows")
		cats, cols, rows := 3, 2, 40
		switch what {
		case "categories":
			cats = pick(c, "categories", 600, 1001, 1100, 2050)
			rows = cats + c.Int("more", 0, 30)
			cols = c.Int("columns", 1, 2)
		case "columns":
			cols = pick(c, "columns", 65, 130, 260)
		case "rows":
			rows = pick(c, "rows", 10007, 66003)
		}
		if sizeCap < 9 {
			rows = 4 + rows*(sizeCap+1)/11
			cats = 3 + cats*(sizeCap+1)/11
		}
		c.D("%d categories, %d columns, %d rows", cats, cols, rows)
		val := func(j, r int) int { return (r*(j%5+1)+j)%cats + 2 }
		db := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
		for j := 0; j < cols; j++ {
			v := make([]int, rows)
			for r := range v {
				v[r] = val(j, r)
			}
			db = db.SetInts(fmt.Sprint("i", j), v)
		}
		df := db.ToDataFrame()
		df.SetMaxCPU(genCPU(c))
		enc := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
		must(c, "Fit", enc.Fit(df))
		v, err := enc.TransformView(df)
		must(c, "TransformView", err)
		where := make([]map[int]string, cols) // category -> new column
		used := map[string]bool{}
		hits := make([]int, rows)
		first := make([][]string, rows)
		for _, name := range v.BoolHeader().NameList() {
			a := v.Bools(name)
			for r := 0; r < rows; r++ {
				if a.Get(r) {
					hits[r]++
					first[r] = append(first[r], name)
				}
			}
		}
		for j := range where {
			where[j] = map[int]string{}
		}
		for r := range hits {
			if hits[r] != cols {
				c.Bad("one-hot: %d columns are true in row %d instead of %d", hits[r], r, cols)
			}
			if cols == 1 {
				x := val(0, r)
				if name, known := where[0][x]; known && name != first[r][0] {
					c.Bad("one-hot: category %d is in %q and in %q", x, name, first[r][0])
				} else if !known && used[first[r][0]] {
					c.Bad("one-hot: %q stands for two categories", first[r][0])
				}
				where[0][x], used[first[r][0]] = first[r][0], true
			}
		}
		// rows are encoded alike exactly if their values are the same
		code, values := map[string]string{}, map[string]string{}
		for r := range hits {
			sort.Strings(first[r])
			key, vals := strings.Join(first[r], "\x00"), ""
			for j := 0; j < cols; j++ {
				vals += fmt.Sprint(val(j, r), " ")
			}
			if k, known := code[vals]; known && k != key {
				c.Bad("one-hot: the values %s are encoded in two ways", clip(vals, 100))
			}
			if x, known := values[key]; known && x != vals {
				c.Bad("one-hot: the values %s and %s are encoded alike", clip(vals, 100), clip(x, 100))
			}
			code[vals], values[key] = key, vals
		}
		c.NT(true)
	}},
	"C25": {func(c *Case) {
		b := genBig(c, pick(c, "kinds", "fb", "fi", "f"), c.Bool("wide"))
		b.missing, b.distinct = false, 200
		b.df = b.build().IndexView(b.rows)
		m := algorithms.NewLinearRegressor()
		m.Features = colNames(b.cols)
		for k := range m.Weights {
			_ = k
		}
		for k := range b.cols {
			m.Weights = append(m.Weights, float64(k%7-3))
		}
		m.TargetScaler = &preprocessing.Scaler{Shift: map[string]float64{"_target": -4}, Scale: map[string]float64{"_target": 0.5}}
		b.df.AllocInts("id")
		for j, r := range b.rows {
			b.df.Ints("id").Set(j, r)
		}
		p, err := m.Predict(b.df, "prediction")
		must(c, "Predict", err)
		if p.NumRows() != len(b.rows) {
			c.Bad("Predict: %d rows instead of %d", p.NumRows(), len(b.rows))
		}
		ids, y := p.Ints("id"), p.Floats("prediction")
		count := map[int]int{}
		for j := range b.rows {
			r := ids.Get(j)
			count[r]++
			want := 0.0
			for k, col := range b.cols {
				want += m.Weights[k] * b.asNumber(col, r)
			}
			want = want/0.5 + 4
			if math.Abs(y.Get(j)-want) > 1e-6*(1+math.Abs(want)) {
				c.Bad("Predict: the prediction of row %d is %v instead of %v", r, y.Get(j), want)
			}
		}
		for _, r := range b.rows {
			count[r]--
		}
		for r, k := range count {
			if k != 0 {
				c.Bad("Predict: row %d occurs too often or not often enough", r)
			}
		}
	}},
	"C27": {func(c *Case) {
		b := genBig(c, "ff", false)
		b.missing = false
		b.df = b.build().IndexView(b.rows)
		x, y := b.cols[0], b.cols[1]
		sq, ab := 0.0, 0.0
		for _, r := range b.rows {
			d := b.float(x, r) - b.float(y, r)
			sq += d * d
			ab += math.Abs(d)
		}
		n := float64(len(b.rows))
		for _, m := range []struct {
			name      string
			got, want float64
		}{{"MSE", algorithms.MSE(b.df.Floats(x.name), b.df.Floats(y.name)), sq / n}, {"MAE", algorithms.MAE(b.df.Floats(x.name), b.df.Floats(y.name)), ab / n}} {
			if math.Abs(m.got-m.want) > 1e-9*m.want {
				c.Bad("%s of %d rows is %v instead of %v", m.name, len(b.rows), m.got, m.want)
			}
		}
		b.self(c, "the dataframe")
	}},
	"C28": {func(c *Case) {
		b := genBig(c, "sib", false)
		b.distinct = pick(c, "labels", 3, 65536, 66000, 70000, 70000, 1)
		if b.distinct > 65536 && sizeCap >= 9 {
			b.n = 70001 // all the labels occur, and again from the last one
			b.rows = append(seq(0, b.n), reversed(seq(0, b.n))...)
		}
		b.df = b.build().IndexView(b.rows)
		c.D("%d labels", b.distinct)
		got, m := b.df.LabelToInt(b.cols[0].name)
		if len(got) != len(b.rows) {
			c.Bad("LabelToInt: %d rows instead of %d", len(got), len(b.rows))
		}
		used := map[int]string{}
		for s, k := range m {
			if t, known := used[k]; known {
				c.Bad("LabelToInt: %q and %q have the same number", s, t)
			}
			used[k] = s
		}
		for j, r := range b.rows {
			want := -1
			if s, ok := b.str(b.cols[0], r).(string); ok {
				if want, ok = m[s]; !ok {
					c.Bad("LabelToInt: %q has no number", s)
				}
			}
			if got[j] != want {
				c.Bad("LabelToInt: row %d is %d instead of %d", j, got[j], want)
			}
		}
		w := b.df.View()
		w.IntToFloats(colNames(b.kind("i"))...)
		w.BoolToFloats(colNames(b.kind("b"))...)
		for _, col := range b.kind("ib") {
			a := w.Floats(col.name)
			for j, r := range b.rows {
				if a.Get(j) != b.asNumber(col, r) {
					c.Bad("conversion to floats: row %d of %q is %v instead of %v", j, col.name, a.Get(j), b.asNumber(col, r))
				}
			}
		}
		b.self(c, "the dataframe")
	}},
	"C22": {func(c *Case) {
		b := genBig(c, "ffs", true)
		b.distinct = 3
		b.missing = false
		b.df = b.build().IndexView(b.rows)
		b.df.SetMaxCPU(genCPU(c))
		auto := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true, Exclude: []string{b.cols[0].name}})
		got := auto.FitTransform(b.df)
		again, err := auto.TransformView(b.df)
		must(c, "TransformView", err)
		js, err := json.Marshal(auto)
		must(c, "Marshal", err)
		var r preprocessing.AutoPreprocessor
		must(c, "Unmarshal", json.Unmarshal(js, &r))
		third, err := r.TransformView(b.df)
		must(c, "TransformView after JSON", err)
		want, e := observe(got)
		if e != nil {
			c.Bad("FitTransform: %v", e)
		}
		c.expect("TransformView", again, want)
		c.expect("TransformView after JSON", third, want)
		strs := len(b.kind("s"))
		for j := range b.rows {
			k := 0
			for _, name := range want.names("b") {
				if want.cols[name].vals[j].(bool) {
					k++
				}
			}
			if k != strs {
				c.Bad("AutoPreprocessor: %d categories in row %d instead of %d", k, j, strs)
			}
		}
		for j, row := range b.rows {
			if x := want.cols[b.cols[0].name].vals[j]; x != b.float(b.cols[0], row) {
				c.Bad("AutoPreprocessor: the excluded column has %v in row %d", x, j)
			}
		}
		for _, col := range b.kind("f")[1:] {
			sum := 0.0
			for _, x := range want.cols[col.name].vals {
				sum += x.(float64)
			}
			if math.Abs(sum) > 1e-6*float64(len(b.rows)) {
				c.Bad("AutoPreprocessor: the mean of %q is %v", col.name, sum/float64(len(b.rows)))
			}
		}
		b.self(c, "the dataframe")
	}},
}

const largeRule = "dataframes of 10007 to 70001 rows, or of 65 to 300 columns, in several internal states; every cell of the results is checked against formulas; non-trivial: always"

func largeTest(t *testing.T, id string) {
	Prop(t, largeRule, 1, func(c *Case) {
		fs := larges[id]
		c.Risky()
		fs[c.Int("which", 0, len(fs)-1)](c)
	})
}

func TestC01_Large(t *testing.T) { largeTest(t, "C01") }
func TestC02_Large(t *testing.T) { largeTest(t, "C02") }
func TestC03_Large(t *testing.T) { largeTest(t, "C03") }
func TestC04_Large(t *testing.T) { largeTest(t, "C04") }
func TestC05_Large(t *testing.T) { largeTest(t, "C05") }
func TestC06_Large(t *testing.T) { largeTest(t, "C06") }
func TestC07_Large(t *testing.T) { largeTest(t, "C07") }
func TestC09_Large(t *testing.T) { largeTest(t, "C09") }
func TestC10_Large(t *testing.T) { largeTest(t, "C10") }
func TestC13_Large(t *testing.T) { largeTest(t, "C13") }
func TestC16_Large(t *testing.T) { largeTest(t, "C16") }
func TestC17_Large(t *testing.T) { largeTest(t, "C17") }
func TestC18_Large(t *testing.T) { largeTest(t, "C18") }
func TestC19_Large(t *testing.T) { largeTest(t, "C19") }
func TestC20_Large(t *testing.T) { largeTest(t, "C20") }
func TestC21_Large(t *testing.T) { largeTest(t, "C21") }
func TestC22_Large(t *testing.T) { largeTest(t, "C22") }
func TestC25_Large(t *testing.T) { largeTest(t, "C25") }
func TestC27_Large(t *testing.T) { largeTest(t, "C27") }
func TestC28_Large(t *testing.T) { largeTest(t, "C28") }
