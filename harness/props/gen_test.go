package props

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- reference

// Kind is the type of a column: 'f'loat, 'i'nt, 'b'ool, 's'tring (tagged as
// such, possibly with missing values), 'o'bject.
type Kind byte

type Col struct {
	name string
	kind Kind
	vals []interface{}
}

// Table is the reference model of a dataframe: what its rows and columns are,
// with no notion of views or sharing.
type Table struct {
	n    int
	cols map[string]*Col
}

func newTable(n int) *Table { return &Table{n: n, cols: map[string]*Col{}} }

func (t *Table) names(kinds string) []string {
	var out []string
	for name, c := range t.cols {
		if strings.IndexByte(kinds, byte(c.kind)) >= 0 {
			out = append(out, name)
		}
	}
	sort.Strings(out)
	return out
}

func (t *Table) all() []string { return t.names("fibso") }

func (t *Table) clone() *Table {
	out := newTable(t.n)
	for name, c := range t.cols {
		out.cols[name] = &Col{name, c.kind, append([]interface{}(nil), c.vals...)}
	}
	return out
}

// rows selects rows, like numpy's x[idx].
func (t *Table) rows(idx []int) *Table {
	out := newTable(len(idx))
	for name, c := range t.cols {
		vals := make([]interface{}, len(idx))
		for j, i := range idx {
			vals[j] = c.vals[i]
		}
		out.cols[name] = &Col{name, c.kind, vals}
	}
	return out
}

func (t *Table) only(names []string) *Table {
	out := newTable(t.n)
	for _, n := range names {
		if c, ok := t.cols[n]; ok {
			out.cols[n] = c
		}
	}
	return out.clone()
}

func (t *Table) without(names ...string) *Table {
	out := t.clone()
	for _, n := range names {
		delete(out.cols, n)
	}
	return out
}

func (t *Table) set(name string, k Kind, vals []interface{}) *Table {
	t.cols[name] = &Col{name, k, vals}
	return t
}

func (t *Table) rename(from, to string) *Table {
	if from == to {
		return t
	}
	c := t.cols[from]
	delete(t.cols, from)
	t.cols[to] = &Col{to, c.kind, c.vals}
	return t
}

func showVal(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case string:
		return strconv.Quote(x)
	case *token:
		if x == nil {
			return "(*token)(nil)"
		}
		return fmt.Sprintf("token#%d", x.id)
	case int:
		return strconv.Itoa(x)
	case bool:
		return strconv.FormatBool(x)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func (t *Table) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "rows=%d", t.n)
	for _, name := range t.all() {
		c := t.cols[name]
		fmt.Fprintf(&sb, " %c:%q[", c.kind, name)
		for i, v := range c.vals {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(showVal(v))
		}
		sb.WriteByte(']')
	}
	return sb.String()
}

// row serialises a row.
func (t *Table) row(i int) string {
	var sb strings.Builder
	for _, name := range t.all() {
		sb.WriteString(showVal(t.cols[name].vals[i]))
		sb.WriteByte('|')
	}
	return sb.String()
}

func sameVal(a, b interface{}) bool {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		return math.Float64bits(x) == math.Float64bits(y) || (x != x && y != y)
	}
	return a == b
}

// diff says how got differs from want ("" if it does not).
func diff(got, want *Table) string {
	if got.n != want.n {
		return fmt.Sprintf("%d rows instead of %d", got.n, want.n)
	}
	for _, name := range want.all() {
		w := want.cols[name]
		g, ok := got.cols[name]
		if !ok {
			return fmt.Sprintf("column %q is missing (has %q)", name, got.all())
		}
		if g.kind != w.kind {
			return fmt.Sprintf("column %q is of kind %c instead of %c", name, g.kind, w.kind)
		}
		for i := range w.vals {
			if !sameVal(g.vals[i], w.vals[i]) {
				return fmt.Sprintf("column %q row %d: %s instead of %s", name, i, showVal(g.vals[i]), showVal(w.vals[i]))
			}
		}
	}
	for _, name := range got.all() {
		if _, ok := want.cols[name]; !ok {
			return fmt.Sprintf("unexpected column %q", name)
		}
	}
	return ""
}

// observe reads a dataframe through its public accessors. Every header and
// every size must agree; a disagreement is returned as an error.
func observe(df *dataframe.DataFrame) (t *Table, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("reading the dataframe panics: %v", r)
		}
	}()
	n := df.NumRows()
	t = newTable(n)
	strs := df.StringHeader().NameSet()
	seen := map[string]int{}
	add := func(name string, k Kind, size int, get func(i int) interface{}) error {
		if size != n {
			return fmt.Errorf("column %q has %d rows, the dataframe %d", name, size, n)
		}
		if seen[name]++; seen[name] > 1 {
			return fmt.Errorf("column %q exists with two types", name)
		}
		vals := make([]interface{}, n)
		for i := range vals {
			vals[i] = get(i)
		}
		t.set(name, k, vals)
		return nil
	}
	for _, name := range df.FloatHeader().NameList() {
		a := df.Floats(name)
		if err := add(name, 'f', a.Size(), func(i int) interface{} { return a.Get(i) }); err != nil {
			return nil, err
		}
		if n > 0 {
			v := a.VecDense() // does not go through the indices of contiguous dataframes
			if v.Len() != n {
				return nil, fmt.Errorf("VecDense of column %q has %d rows, the dataframe %d", name, v.Len(), n)
			}
			for i := 0; i < n; i++ {
				if !sameVal(v.AtVec(i), a.Get(i)) {
					return nil, fmt.Errorf("VecDense of column %q has %v in row %d instead of %v", name, v.AtVec(i), i, a.Get(i))
				}
			}
		}
	}
	for _, name := range df.IntHeader().NameList() {
		a := df.Ints(name)
		if err := add(name, 'i', a.Size(), func(i int) interface{} { return a.Get(i) }); err != nil {
			return nil, err
		}
	}
	for _, name := range df.BoolHeader().NameList() {
		a := df.Bools(name)
		if err := add(name, 'b', a.Size(), func(i int) interface{} { return a.Get(i) }); err != nil {
			return nil, err
		}
	}
	for _, name := range df.ObjectHeader().NameList() {
		k := Kind('o')
		if strs[name] {
			k = 's'
			sa := df.Strings(name)
			if sa.Size() != n {
				return nil, fmt.Errorf("string column %q has %d rows, the dataframe %d", name, sa.Size(), n)
			}
		}
		a := df.Objects(name)
		if err := add(name, k, a.Size(), func(i int) interface{} { return a.Get(i) }); err != nil {
			return nil, err
		}
	}
	for name := range strs {
		if c, ok := t.cols[name]; !ok || c.kind != 's' {
			return nil, fmt.Errorf("%q is listed as a string column but is not an object column", name)
		}
	}
	if df.NumColumns() != len(t.cols) {
		return nil, fmt.Errorf("NumColumns()=%d but there are %d columns", df.NumColumns(), len(t.cols))
	}
	h := sortedCopy(df.Header().NameList())
	if strings.Join(h, "\x00") != strings.Join(t.all(), "\x00") || len(h) != len(t.cols) {
		return nil, fmt.Errorf("Header() lists %q instead of %q", h, t.all())
	}
	return t, nil
}

// expect checks that df reads exactly as want.
func (c *Case) expect(what string, df *dataframe.DataFrame, want *Table) {
	c.Helper()
	if df == nil {
		c.Bad("%s: nil dataframe", what)
	}
	got, err := observe(df)
	if err != nil {
		c.Bad("%s: %v", what, err)
	}
	if d := diff(got, want); d != "" {
		c.Bad("%s: %s\n  got  %s\n  want %s", what, d, clip(got.String(), 3000), clip(want.String(), 3000))
	}
}

// ---------------------------------------------------------------- generators

// token is what generated object columns hold (identity matters).
type token struct{ id int }

var tokens = func() []*token {
	out := make([]*token, 64)
	for i := range out {
		out[i] = &token{i}
	}
	return out
}()

type tabOpts struct {
	kinds    string // kinds of the columns to generate
	minCols  int
	maxCols  int
	minRows  int
	maxRows  int
	finite   bool // no NaN, no Inf, moderate magnitudes
	noNaN    bool
	noInf    bool
	noNil    bool     // no missing strings
	names    []string // pool of column names
	force    string   // at least one column of each of these kinds
	utf8     bool
	distinct int // at most so many different strings and ints in a column (0: any number)
}

var plainNames = []string{"a", "b", "c", "d", "e", "f", "g", "h", "k", "m"}
var oddNames = []string{"a", "b", "c", "A", "x y", "é", "100%", "%d", "a,b", "q\"", "_target", "a_missing", "a_unk", "a_onehot0", " ", "名前", "line\nbreak", "", "a_onehot1", "b_missing"}

var strPool = []string{"a", "b", "c", "", "aa", "ab", "é", "a,b", "\"q\"", "x\ny", "end\n", "\n", " lead", "1", "true", "%d", "-1", "NaN", "日本", "tail ", "0", "'", longString + "a", longString + "b",
	// what code might take for something else
	"#a", "//", "null", "nil", "<nil>", "NA", "N/A", "=1+1", ";", "a;b", "\\", "\\n", "\t", "\x00", "\u00a0", "None", "inf", "0x1", "1e3", "1_000"}
var longString = strings.Repeat("0123456789abcdef", 20)
var floatPool = []float64{0, 1, -1, 0.5, -0.25, 2, 3, 1.0 / 3, 1e-9, 123456.789, -7}
var wildFloats = []float64{math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1), 1e300, -1e300, 9007199254740993, 0.1 + 0.2, -math.MaxFloat64, 1e-300}
var intPool = []int{0, 1, 2, -1, 3, -2, 7, 100, 1 << 31, 1<<53 + 1, 1 << 53, math.MaxInt64, math.MinInt64, -1 << 40, 5}

// intSource is where cell values come from: either rapid draws (small tables,
// they shrink well) or a generator seeded by one draw (large tables).
type intSource interface {
	n(max int) int
	f() float64
	i() int
}

type drawSource struct{ t *rapid.T }

func (s drawSource) n(max int) int { return rapid.IntRange(0, max-1).Draw(s.t, "cell") }
func (s drawSource) f() float64    { return rapid.Float64().Draw(s.t, "cellf") }
func (s drawSource) i() int        { return rapid.Int().Draw(s.t, "celli") }

type rngSource struct{ r *rand.Rand }

func (s rngSource) n(max int) int { return s.r.Intn(max) }
func (s rngSource) f() float64    { return s.r.NormFloat64() * math.Pow(10, float64(s.r.Intn(7)-2)) }
func (s rngSource) i() int        { return int(s.r.Uint64()) >> uint(s.r.Intn(60)) }

func (c *Case) source(cells int) intSource {
	if cells <= 60 {
		return drawSource{c.T}
	}
	return rngSource{rand.New(rand.NewSource(int64(rapid.Uint32().Draw(c.T, "cells"))))}
}

// decorations make strings that look like others: by their ends, their case, or
// characters that one does not see.
const decorations = 14

func decorate(s string, how int) string {
	switch how {
	case 0:
		return s + " "
	case 1:
		return " " + s
	case 2:
		return s + "\t"
	case 3:
		return s + "\x00"
	case 4:
		return s + "\x1a"
	case 5:
		return "\ufeff" + s
	case 6:
		if u := strings.ToUpper(s); u != s {
			return u
		}
		return strings.ToLower(s)
	case 7:
		return s + "\u00a0"
	case 8:
		return s + "\u0301"
	case 9:
		if s != "" && s[len(s)-1] < 0x80 {
			return s + s[len(s)-1:]
		}
		return s + "0"
	case 10:
		return "\u3000" + s
	case 11:
		return "\x00" + s
	case 12:
		if len(s) > 1 && s[0] < 0x80 && s[1] < 0x80 {
			return s[1:2] + s[:1] + s[2:]
		}
		return s + "\u200b"
	}
	return strings.Map(func(r rune) rune {
		if r > ' ' && r < 0x7f {
			return r - ' ' + 0xff00 // full width
		}
		return r
	}, s)
}

func genCell(s intSource, k Kind, o *tabOpts) interface{} {
	switch k {
	case 'f':
		r := s.n(16)
		switch {
		case r < 9:
			return floatPool[s.n(len(floatPool))]
		case r < 12:
			v := s.f()
			if o.finite && (math.Abs(v) > 1e9 || (v != 0 && math.Abs(v) < 1e-9)) {
				v = math.Mod(v, 1000)
				if v != v || math.Abs(v) < 1e-9 {
					v = 4
				}
			}
			return v
		case r < 14:
			if o.noNaN || o.finite {
				return floatPool[s.n(len(floatPool))]
			}
			return math.NaN()
		default:
			if o.finite {
				return float64(s.n(2000)-1000) / 8
			}
			v := wildFloats[s.n(len(wildFloats))]
			if o.noInf && math.IsInf(v, 0) {
				v = 42
			}
			return v
		}
	case 'i':
		r := s.n(8)
		if r < 5 {
			return intPool[s.n(5)]
		}
		if r < 7 {
			return intPool[s.n(len(intPool))]
		}
		return s.i()
	case 'b':
		return s.n(2) == 1
	case 's':
		r := s.n(12)
		if r < 6 {
			return strPool[s.n(3)]
		}
		if r < 8 && !o.noNil {
			return nil
		}
		if r < 11 {
			v := strPool[s.n(len(strPool))]
			if s.n(5) == 0 {
				v = decorate(v, s.n(decorations))
			}
			return v
		}
		// strings of random length: long ones too
		n := s.n(12)
		if s.n(20) == 0 {
			n = 200
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + s.n(26))
		}
		return string(b)
	case 'o':
		r := s.n(6)
		if r == 0 {
			return nil
		}
		if r == 1 {
			return s.n(5) // an int among the objects
		}
		return tokens[s.n(len(tokens))]
	}
	panic("kind")
}

// genRows draws a number of rows; the classes cover the thresholds that the
// library's heuristics depend on (10 rows per column, 128 and 256 row batches).
func genRows(c *Case, lo, hi int) int {
	var n int
	switch c.Int("size", 0, 9) {
	case 0, 1, 2:
		n = c.Int("rows", 2, 6)
	case 3:
		n = c.Int("rows", 0, 2)
	case 4, 5:
		n = c.Int("rows", 5, 14)
	case 6, 7:
		n = c.Int("rows", 11, 45)
	case 8:
		n = c.Int("rows", 46, 140)
	default:
		n = c.Int("rows", 120, 600)
		if hi >= 1000 && c.Chance("huge", 6) {
			n = c.Int("rows", 600, 2500)
			if c.Chance("vast", 16) {
				n = pick(c, "rows", 4097, 5000, 8193, 10000, 10001, 16385, 20011, 33000, 66001)
			}
		}
	}
	if sizeCap < 9 && n > 3*(sizeCap+1) {
		n = 3 * (sizeCap + 1)
	}
	if n < lo {
		n = lo
	}
	if n > hi {
		n = hi
	}
	return n
}

// genTable draws a table.
func genTable(c *Case, o tabOpts) *Table {
	if o.kinds == "" {
		o.kinds = "fibso"
	}
	if o.maxCols == 0 {
		o.maxCols = 6
	}
	if o.maxRows == 0 {
		o.maxRows = 100000
	}
	pool := o.names
	if pool == nil {
		if c.Chance("odd names", 3) {
			pool = oddNames
		} else {
			pool = plainNames
		}
	}
	if o.maxCols > len(pool) {
		o.maxCols = len(pool)
	}
	n := genRows(c, o.minRows, o.maxRows)
	lo := o.minCols
	if len(o.force) > lo {
		lo = len(o.force)
	}
	hi := o.maxCols
	if hi < lo {
		hi = lo
	}
	if sizeCap < 9 && hi > lo && hi > sizeCap+1 {
		hi = sizeCap + 1
		if hi < lo {
			hi = lo
		}
	}
	ncols := c.Int("ncols", lo, hi)
	t := newTable(n)
	free := append([]string(nil), pool...)
	if o.names == nil && o.maxCols >= 5 && sizeCap >= 9 && n <= 50 && c.Chance("wide", 30) {
		// more columns than workers
		ncols = c.Int("wide ncols", 8, 40)
		if n <= 16 && c.Chance("very wide", 4) {
			ncols = pick(c, "columns", 63, 64, 65, 100, 129, 260)
		}
		for i := 0; i < 260; i++ {
			free = append(free, fmt.Sprintf("w%d", i))
		}
	}
	for k := 0; k < ncols; k++ {
		i := c.Int("name", 0, len(free)-1)
		name := free[i]
		free = append(free[:i], free[i+1:]...)
		var kind Kind
		if k < len(o.force) {
			kind = Kind(o.force[k])
		} else {
			kind = Kind(pick(c, "kind", []byte(o.kinds)...))
		}
		t.set(name, kind, genVals(c, kind, n, &o))
	}
	return t
}

func genVals(c *Case, kind Kind, n int, o *tabOpts) []interface{} {
	vals := genAnyVals(c, kind, n, o)
	if o.distinct > 0 && n > o.distinct && (kind == 's' || kind == 'i') {
		seen := map[interface{}]bool{}
		var list []interface{}
		for i, v := range vals {
			if !seen[v] && len(list) >= o.distinct {
				vals[i] = list[i%len(list)]
			} else if !seen[v] {
				seen[v] = true
				list = append(list, v)
			}
		}
	}
	return vals
}

func genAnyVals(c *Case, kind Kind, n int, o *tabOpts) []interface{} {
	vals := make([]interface{}, n)
	if (kind == 's' || kind == 'i') && n > 60 && c.Chance("many distinct", 4) {
		// few repetitions
		s := c.source(n)
		m := 1 + s.n(4*n)
		for i := range vals {
			k := s.n(m)
			if kind == 'i' {
				vals[i] = k - m/2
			} else if k > 0 || o.noNil {
				vals[i] = fmt.Sprint("v", k)
			}
		}
		return vals
	}
	s := c.source(n)
	if kind == 'f' && n > 3 && c.Chance("narrow spread", 8) {
		// far from 0, compared to the spread
		offset := pick(c, "offset", 1e3, -1e4, 1e5, -1e6, 123456.75)
		for i := range vals {
			vals[i] = offset + float64(s.n(17)-8)/4
		}
		return vals
	}
	for i := range vals {
		vals[i] = genCell(s, kind, o)
	}
	return vals
}

func toFloats(vals []interface{}) []float64 {
	out := make([]float64, len(vals))
	for i, v := range vals {
		out[i] = v.(float64)
	}
	return out
}
func toInts(vals []interface{}) []int {
	out := make([]int, len(vals))
	for i, v := range vals {
		out[i] = v.(int)
	}
	return out
}
func toBools(vals []interface{}) []bool {
	out := make([]bool, len(vals))
	for i, v := range vals {
		out[i] = v.(bool)
	}
	return out
}
func hasNil(vals []interface{}) bool {
	for _, v := range vals {
		if v == nil {
			return true
		}
	}
	return false
}
func toStrings(vals []interface{}) []string {
	out := make([]string, len(vals))
	for i, v := range vals {
		out[i] = v.(string)
	}
	return out
}

// buildPlain makes a dataframe out of the reference with the data builder.
func buildPlain(t *Table, cpu int) *dataframe.DataFrame {
	if len(t.cols) == 0 {
		return dataframe.EmptyDataFrame(t.n, cpu)
	}
	return builderOf(t, cpu).ToDataFrame()
}

func builderOf(t *Table, cpu int) dataframe.DataBuilder {
	b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
	b.RawData.SetMaxCPU(cpu)
	for _, name := range t.all() {
		col := t.cols[name]
		vals := append([]interface{}(nil), col.vals...)
		switch col.kind {
		case 'f':
			b.SetFloats(name, toFloats(vals))
		case 'i':
			b.SetInts(name, toInts(vals))
		case 'b':
			b.SetBools(name, toBools(vals))
		case 's':
			b.SetObjects(name, vals)
			b.MarkAsString(name)
		case 'o':
			b.SetObjects(name, vals)
		}
	}
	return b
}

func overwrite(df *dataframe.DataFrame, name string, kind Kind, vals []interface{}) {
	switch kind {
	case 'f':
		df.OverwriteFloats64(name, toFloats(vals))
	case 'i':
		df.OverwriteInts(name, toInts(vals))
	case 'b':
		df.OverwriteBools(name, toBools(vals))
	case 's':
		if hasNil(vals) {
			df.OverwriteObjects(name, vals, dataframe.StringObject)
		} else {
			df.OverwriteStrings(name, toStrings(vals))
		}
	case 'o':
		df.OverwriteObjects(name, vals, dataframe.AnyObject)
	}
}

func genCPU(c *Case) int { return pick(c, "cpu", 1, 2, 3, 8, 4, -1) }

// build makes a dataframe for the table in one of several ways.
func build(c *Case, t *Table) *dataframe.DataFrame {
	df := build1(c, t)
	if c.Chance("debug", 15) {
		c.D("debug mode")
		df.Debug(true) // must change nothing but the log
	}
	return df
}

func build1(c *Case, t *Table) *dataframe.DataFrame {
	cpu := genCPU(c)
	switch c.Int("build", 0, 3) {
	case 0, 1:
		c.D("build: data builder, cpu=%d", cpu)
		return buildPlain(t, cpu)
	case 2:
		if t.n > 0 || len(t.cols) == 0 {
			c.D("build: empty dataframe + overwrite, cpu=%d", cpu)
			df := dataframe.EmptyDataFrame(t.n, cpu)
			for _, name := range t.all() {
				overwrite(df, name, t.cols[name].kind, t.cols[name].vals)
			}
			return df
		}
		c.D("build: data builder, cpu=%d", cpu)
		return buildPlain(t, cpu)
	default:
		// a view on a larger dataframe, compacted
		c.D("build: copy, cpu=%d", cpu)
		return buildPlain(t, cpu).ReverseView().ReverseView().Copy()
	}
}

// genIndices draws a selection of rows out of n.
func genIndices(c *Case, n int, repeat bool) []int {
	if n == 0 {
		return []int{}
	}
	switch c.Int("idx mode", 0, 5) {
	case 4: // the first rows, as they are
		return seq(0, c.Int("len", 0, n))
	case 0: // permutation
		r := rand.New(rand.NewSource(int64(c.Int("perm", 0, 1<<20))))
		return r.Perm(n)
	case 1: // strided
		var out []int
		step := c.Int("step", 1, 3)
		for i := c.Int("start", 0, n-1); i < n; i += step {
			out = append(out, i)
		}
		return out
	case 2: // prefix of a permutation
		r := rand.New(rand.NewSource(int64(c.Int("perm", 0, 1<<20))))
		return r.Perm(n)[:c.Int("len", 0, n)]
	case 3:
		if repeat { // arbitrary, with repetitions, possibly longer than n
			m := c.Int("len", 0, n+n/2+2)
			s := c.source(m)
			out := make([]int, m)
			for i := range out {
				out[i] = s.n(n)
			}
			return out
		}
		return rand.New(rand.NewSource(int64(c.Int("perm", 0, 1<<20)))).Perm(n)
	default: // contiguous block
		a := c.Int("from", 0, n)
		b := c.Int("to", a, n)
		out := make([]int, 0, b-a)
		for i := a; i < b; i++ {
			out = append(out, i)
		}
		return out
	}
}

func showIdx(idx []int) string {
	if len(idx) > 24 {
		h := 0
		for _, v := range idx {
			h = h*31 + v + 1
		}
		return fmt.Sprintf("%v…(%d indices, hash %x)", idx[:24], len(idx), h)
	}
	return fmt.Sprint(idx)
}

func seq(a, b int) []int {
	out := []int{}
	for i := a; i < b; i++ {
		out = append(out, i)
	}
	return out
}

func reversed(idx []int) []int {
	out := make([]int, len(idx))
	for i, v := range idx {
		out[len(idx)-1-i] = v
	}
	return out
}

type viewOpts struct {
	repeat  bool // rows may be repeated
	cols    bool // columns may be dropped / renamed
	maxOps  int
	keep    []string // columns that must survive under their name
	noCopy  bool     // only views, no deep copies
	minRows int
	grow    int // most rows a view may have (default 700)
}

// derive applies a random chain of view operations to df, mirrored on the
// reference.
func derive(c *Case, df *dataframe.DataFrame, t *Table, o viewOpts) (*dataframe.DataFrame, *Table) {
	if o.maxOps == 0 {
		o.maxOps = 4
	}
	ops := c.Int("view ops", 0, o.maxOps)
	for k := 0; k < ops; k++ {
		df, t = deriveOnce(c, df, t, o)
	}
	return df, t
}

func deriveOnce(c *Case, df *dataframe.DataFrame, t *Table, o viewOpts) (*dataframe.DataFrame, *Table) {
	if o.grow == 0 {
		o.grow = 700
	}
	op := pick(c, "op", "slice", "index", "slice", "mask", "reverse", "view", "shallow", "detached", "column", "split", "sorted", "copy", "drop", "rename", "fresh", "concat", "shuffle", "reset", "colconcat", "splitn", "sample")
	n := t.n
	switch op {
	case "slice":
		a := c.Int("from", 0, n)
		b := c.Int("to", a, n)
		if b-a < o.minRows {
			return df, t
		}
		c.D("  .SliceView(%d,%d)", a, b)
		return df.SliceView(a, b), t.rows(seq(a, b))
	case "index":
		idx := genIndices(c, n, o.repeat)
		if len(idx) < o.minRows || len(idx) > o.grow {
			return df, t
		}
		c.D("  .IndexView(%s)", showIdx(idx))
		return df.IndexView(idx), t.rows(idx)
	case "mask":
		s := c.source(n)
		mask := make([]bool, n)
		var idx []int
		for i := range mask {
			mask[i] = s.n(3) > 0
			if mask[i] {
				idx = append(idx, i)
			}
		}
		if len(idx) < o.minRows {
			return df, t
		}
		c.D("  .MaskView(keep %s)", showIdx(idx))
		return df.MaskView(mask), t.rows(idx)
	case "reverse":
		c.D("  .ReverseView()")
		return df.ReverseView(), t.rows(reversed(seq(0, n)))
	case "view":
		c.D("  .View()")
		return df.View(), t.clone()
	case "shallow":
		c.D("  .ShallowCopy()")
		return df.ShallowCopy(), t.clone()
	case "detached":
		names := subset(c, t.all())
		if c.Bool("all columns") {
			names = nil
		}
		c.D("  .DetachedView(%q)", names)
		return df.DetachedView(names...), t.clone()
	case "copy":
		if o.noCopy {
			return df, t
		}
		c.D("  .Copy()")
		return df.Copy(), t.clone()
	case "column":
		if !o.cols {
			return df, t
		}
		names := subset(c, t.all())
		for _, k := range o.keep {
			if !contains(names, k) {
				names = append(names, k)
			}
		}
		if len(names) == 0 {
			return df, t
		}
		c.D("  .ColumnView(%q)", names)
		return df.ColumnView(names...), t.only(names)
	case "split":
		if n == 0 {
			return df, t
		}
		size := c.Int("batch", 1, n)
		i := c.Int("part", 0, (n-1)/size)
		end := (i + 1) * size
		if end > n {
			end = n
		}
		if end-i*size < o.minRows {
			return df, t
		}
		c.D("  .SplitView(%d)[%d]", size, i)
		return df.SplitView(size)[i], t.rows(seq(i*size, end))
	case "sorted":
		cols := t.names("b")
		if len(cols) == 0 {
			return df, t
		}
		by := cols[c.Int("by", 0, len(cols)-1)]
		idx := seq(0, n)
		sort.SliceStable(idx, func(a, b int) bool {
			return !t.cols[by].vals[idx[a]].(bool) && t.cols[by].vals[idx[b]].(bool)
		})
		c.D("  .SortedView(%q)", by)
		v := df.SortedView(by)
		// the order within equal keys is not specified: read it back
		return v, t.rows(matchRows(c, v, t, idx))
	case "shuffle":
		c.D("  .ShuffleView()")
		v := df.ShuffleView()
		return v, t.rows(matchRows(c, v, t, seq(0, n)))
	case "reset":
		c.D("  .ResetIndexView()")
		v := df.ResetIndexView()
		return v, t.rows(matchRows(c, v, t, seq(0, n)))
	case "splitn":
		k := c.Int("parts", 1, 4)
		i := c.Int("part", 0, k-1)
		parts := df.SplitNView(k)
		if len(parts) != k {
			c.Bad("SplitNView(%d) returns %d parts", k, len(parts))
		}
		from := 0
		for _, p := range parts[:i] {
			from += p.NumRows()
		}
		m := parts[i].NumRows()
		if m < o.minRows {
			return df, t
		}
		if from+m > n {
			c.Bad("the parts of SplitNView(%d) have more than the %d rows", k, n)
		}
		c.D("  .SplitNView(%d)[%d]", k, i)
		return parts[i], t.rows(seq(from, from+m))
	case "sample":
		k := c.Int("sample", 0, n)
		if k < o.minRows {
			return df, t
		}
		c.D("  .SampleView(%d)", k)
		v := df.SampleView(k, false)
		got, err := observe(v)
		if err != nil {
			c.Bad("%v", err)
		}
		// a sample without replacement: each row of it is matched to another one
		where := map[string][]int{}
		for i := 0; i < n; i++ {
			r := t.row(i)
			where[r] = append(where[r], i)
		}
		if got.n != k {
			c.Bad("SampleView(%d) has %d rows", k, got.n)
		}
		idx := make([]int, k)
		for j := range idx {
			l := where[got.row(j)]
			if len(l) == 0 {
				c.Bad("SampleView: row %d (%s) is not one of the dataframe, or appears too often", j, got.row(j))
			}
			idx[j], where[got.row(j)] = l[0], l[1:]
		}
		return v, t.rows(idx)
	case "colconcat":
		if o.noCopy || len(t.cols) < 2 {
			return df, t
		}
		a := subset(c, t.all())
		if len(a) == 0 || len(a) == len(t.cols) {
			return df, t
		}
		var b []string
		for _, name := range t.all() {
			if !contains(a, name) {
				b = append(b, name)
			}
		}
		how := pick(c, "how", "ColumnConcatView", "ColumnSmartConcat", "ColumnCopyConcat")
		c.D("  %s(ColumnView(%q), ColumnView(%q))", how, a, b)
		f := map[string]func(...*dataframe.DataFrame) (*dataframe.DataFrame, error){
			"ColumnConcatView": dataframe.ColumnConcatView, "ColumnSmartConcat": dataframe.ColumnSmartConcat, "ColumnCopyConcat": dataframe.ColumnCopyConcat}[how]
		v, err := f(df.ColumnView(a...), df.ColumnView(b...))
		if err != nil {
			c.Bad("%s of two column views of one dataframe: %v", how, err)
		}
		return v, t.clone()
	case "drop":
		if !o.cols {
			return df, t
		}
		var names []string
		for _, s := range subset(c, t.all()) {
			if !contains(o.keep, s) {
				names = append(names, s)
			}
		}
		if len(names) == len(t.cols) {
			return df, t
		}
		c.D("  .View().Drop(%q)", names)
		v := df.View()
		v.Drop(names...)
		return v, t.without(names...)
	case "rename":
		if !o.cols || len(t.cols) == 0 {
			return df, t
		}
		all := t.all()
		from := all[c.Int("from col", 0, len(all)-1)]
		to := fmt.Sprintf("r%d", c.Int("new name", 0, 3))
		if contains(o.keep, from) || contains(all, to) {
			return df, t
		}
		c.D("  .View().Rename(%q,%q)", from, to)
		v := df.View()
		v.Rename(from, to)
		return v, t.clone().rename(from, to)
	case "fresh":
		if !o.cols {
			return df, t
		}
		name := fmt.Sprintf("n%d", c.Int("new col", 0, 3))
		if _, ok := t.cols[name]; ok {
			return df, t
		}
		k := Kind(pick(c, "kind", []byte("fibso")...))
		v := df.View()
		t2 := t.clone()
		vals := make([]interface{}, n)
		switch k {
		case 'f':
			v.AllocFloats(name)
			for i := range vals {
				vals[i] = 0.0
			}
		case 'i':
			v.AllocInts(name)
			for i := range vals {
				vals[i] = 0
			}
		case 'b':
			v.AllocBools(name)
			for i := range vals {
				vals[i] = false
			}
		case 's':
			v.AllocStrings(name)
		case 'o':
			v.AllocObjects(name)
		}
		c.D("  .View().Alloc(%c:%q)", k, name)
		return v, t2.set(name, k, vals)
	case "concat":
		if n == 0 || n > 50 || o.noCopy || o.grow < 100 {
			return df, t
		}
		c.D("  RowConcat(self, self)")
		v, err := dataframe.RowConcat(df, df)
		if err != nil {
			c.Bad("RowConcat of a dataframe with itself: %v", err)
		}
		return v, t.rows(append(seq(0, n), seq(0, n)...))
	}
	panic(op)
}

// matchRows finds which permutation of idx the dataframe v shows; the rows of v
// must be exactly the rows idx of t, in some order.
func matchRows(c *Case, v *dataframe.DataFrame, t *Table, idx []int) []int {
	got, err := observe(v)
	if err != nil {
		c.Bad("%v", err)
	}
	where := map[string][]int{}
	for _, i := range idx {
		r := t.row(i)
		where[r] = append(where[r], i)
	}
	if got.n != len(idx) {
		c.Bad("%d rows instead of %d", got.n, len(idx))
	}
	out := make([]int, got.n)
	for j := range out {
		r := got.row(j)
		l := where[r]
		if len(l) == 0 {
			c.Bad("row %d (%s) is not one of the expected rows, or appears too often\n  got  %s\n  from %s", j, r, clip(got.String(), 2000), clip(t.String(), 2000))
		}
		out[j] = l[0]
		where[r] = l[1:]
	}
	return out
}

func contains(s []string, x string) bool {
	for _, v := range s {
		if v == x {
			return true
		}
	}
	return false
}

func subset(c *Case, s []string) []string {
	var out []string
	for _, v := range s {
		if c.Bool("pick") {
			out = append(out, v)
		}
	}
	return out
}

// genFrame draws a table, builds it and derives a view from it. It returns the
// root dataframe, its reference, the view and the view's reference.
type frames struct {
	root  *dataframe.DataFrame
	rootT *Table
	df    *dataframe.DataFrame
	t     *Table
}

func genFrame(c *Case, o tabOpts, v viewOpts) frames {
	t := genTable(c, o)
	c.D("table %s", t)
	root := build(c, t)
	df, tt := derive(c, root, t, v)
	return frames{root, t, df, tt}
}
