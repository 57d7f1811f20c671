package props

import (
	"fmt"
	"io"
	"math"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/utils"
	"golang.org/x/text/encoding/charmap"
	"pgregory.net/rapid"
)

// ------------------------------------------------- C32 builders and RawData

// rawModel is the reference of a RawData under construction: its columns may
// have different sizes.
type rawModel struct {
	cols map[string]*Col
}

func (m *rawModel) clone() *rawModel {
	out := &rawModel{map[string]*Col{}}
	for n, c := range m.cols {
		out.cols[n] = &Col{n, c.kind, append([]interface{}(nil), c.vals...)}
	}
	return out
}

func (m *rawModel) names() []string {
	var out []string
	for n := range m.cols {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// table is the table that the model denotes, nil if the sizes differ.
func (m *rawModel) table() *Table {
	t := newTable(0)
	for k, n := range m.names() {
		col := m.cols[n]
		if k > 0 && len(col.vals) != t.n {
			return nil
		}
		t.n = len(col.vals)
		t.set(n, col.kind, append([]interface{}(nil), col.vals...))
	}
	return t
}

func zeroOf(k Kind) interface{} {
	switch k {
	case 'f':
		return 0.0
	case 'i':
		return 0
	case 'b':
		return false
	}
	return nil
}

// genRaw builds a RawData by a random sequence of builder calls.
func genRaw(c *Case, tag string, names []string, n int, odd bool) (*dataframe.RawData, *rawModel) {
	raw := dataframe.NewRawData()
	b := dataframe.DataBuilder{RawData: raw}
	m := &rawModel{map[string]*Col{}}
	for _, name := range names {
		kind := Kind(pick(c, "kind", []byte("fibso")...))
		size := n
		if odd && c.Chance("odd size", 6) {
			size = c.Int("size", 0, n+2)
		}
		vals := genVals(c, kind, size, &tabOpts{})
		how := pick(c, "how", "set", "add", "add in parts", "set then replace")
		c.D("%s: %s %c:%q %v", tag, how, kind, name, vals)
		cut := c.Int("cut", 0, size)
		parts := [][]interface{}{vals}
		if how == "add in parts" {
			parts = [][]interface{}{vals[:cut], vals[cut:]}
		}
		if how == "set then replace" {
			setRaw(b, kind, name, genVals(c, kind, c.Int("old size", 0, 5), &tabOpts{}))
		}
		for _, p := range parts {
			p = append([]interface{}(nil), p...)
			if how == "set" || how == "set then replace" {
				b = setRaw(b, kind, name, p)
				continue
			}
			switch kind {
			case 'f':
				b = b.AddFloats(name, toFloats(p)...)
			case 'i':
				b = b.AddInts(name, toInts(p)...)
			case 'b':
				b = b.AddBools(name, toBools(p)...)
			case 's':
				if !hasNil(p) && c.Bool("AddStrings") {
					b = b.AddStrings(name, toStrings(p)...)
				} else {
					b = b.AddObjects(name, p...).MarkAsString(name)
				}
			case 'o':
				b = b.AddObjects(name, p...)
			}
		}
		m.cols[name] = &Col{name, kind, vals}
	}
	if b.RawData != raw {
		c.Bad("the builder does not build the RawData it was given")
	}
	return raw, m
}

func setRaw(b dataframe.DataBuilder, kind Kind, name string, p []interface{}) dataframe.DataBuilder {
	switch kind {
	case 'f':
		return b.SetFloats(name, toFloats(p))
	case 'i':
		return b.SetInts(name, toInts(p))
	case 'b':
		return b.SetBools(name, toBools(p))
	case 's':
		return b.SetObjects(name, p).MarkAsString(name)
	}
	return b.SetObjects(name, p)
}

// expectModel checks the RawData, by its headers and as a dataframe.
func (c *Case) expectModel(what string, raw *dataframe.RawData, m *rawModel) {
	c.Helper()
	for _, x := range []struct {
		kinds string
		got   dataframe.ColumnHeader
	}{{"f", raw.FloatHeader()}, {"i", raw.IntHeader()}, {"b", raw.BoolHeader()}, {"so", raw.ObjectHeader()}, {"s", raw.StringHeader()}, {"fibso", raw.Header()}} {
		var want []string
		for n, col := range m.cols {
			if strings.IndexByte(x.kinds, byte(col.kind)) >= 0 {
				want = append(want, n)
			}
		}
		if fmt.Sprintf("%q", sortedCopy(x.got.NameList())) != fmt.Sprintf("%q", sortedCopy(want)) {
			c.Bad("%s: the columns of kind %s are %q instead of %q", what, x.kinds, x.got.NameList(), want)
		}
	}
	if raw.NumColumns() != len(m.cols) {
		c.Bad("%s: NumColumns() is %d instead of %d", what, raw.NumColumns(), len(m.cols))
	}
	t := m.table()
	var df *dataframe.DataFrame
	p := panics(func() { df = raw.ToDataFrame() })
	if t == nil {
		if p == nil {
			c.Bad("%s: ToDataFrame does not panic though the columns are of different sizes", what)
		}
		return
	}
	if p != nil {
		c.Bad("%s: ToDataFrame panics though all the columns have %d rows: %v", what, t.n, p)
	}
	if len(m.cols) > 0 {
		if raw.NumAllocatedRows() != t.n {
			c.Bad("%s: NumAllocatedRows() is %d instead of %d", what, raw.NumAllocatedRows(), t.n)
		}
		c.expect(what, df, t)
	}
}

func TestC32_Builder(t *testing.T) {
	Prop(t, "RawData are built column by column, added to, replaced, dropped, renamed and converted, then upgraded to a dataframe; non-trivial: at least 2 columns with rows", 900, func(c *Case) {
		names := plainNames[:c.Int("columns", 0, 6)]
		n := genRows(c, 0, 60)
		raw, m := genRaw(c, "raw", names, n, c.Bool("odd sizes"))
		c.expectModel("after building", raw, m)
		steps := c.Int("steps", 0, 4)
		for s := 0; s < steps && len(m.cols) > 0; s++ {
			have := m.names()
			name := have[c.Int("which", 0, len(have)-1)]
			col := m.cols[name]
			switch op := pick(c, "op", "drop", "rename", "alloc", "toFloat", "mark", "replace"); op {
			case "drop":
				raw.Drop(name, "no such column")
				delete(m.cols, name)
				c.D("Drop(%q)", name)
			case "rename":
				to := fmt.Sprintf("r%d", s)
				raw.Rename(name, to)
				delete(m.cols, name)
				m.cols[to] = &Col{to, col.kind, col.vals}
				c.D("Rename(%q,%q)", name, to)
			case "alloc":
				t := m.table()
				if t == nil {
					continue
				}
				to, kind := fmt.Sprintf("n%d", s), Kind(pick(c, "kind", []byte("fibso")...))
				switch kind {
				case 'f':
					raw.AllocFloats(to)
				case 'i':
					raw.AllocInts(to)
				case 'b':
					raw.AllocBools(to)
				case 's':
					raw.AllocStrings(to)
				case 'o':
					raw.AllocObjects(to)
				}
				vals := make([]interface{}, t.n)
				for i := range vals {
					vals[i] = zeroOf(kind)
				}
				m.cols[to] = &Col{to, kind, vals}
				c.D("Alloc(%c:%q)", kind, to)
			case "toFloat":
				vals := make([]interface{}, len(col.vals))
				switch col.kind {
				case 'i':
					raw.IntToFloats(name)
				case 'b':
					raw.BoolToFloats(name)
				default:
					continue
				}
				for i := range vals {
					vals[i] = asFloat(col.vals[i])
				}
				m.cols[name] = &Col{name, 'f', vals}
				c.D("ToFloats(%q)", name)
			case "mark":
				if col.kind != 'o' {
					continue
				}
				vals := genVals(c, 's', len(col.vals), &tabOpts{})
				setRaw(dataframe.DataBuilder{RawData: raw}, 's', name, append([]interface{}(nil), vals...))
				m.cols[name] = &Col{name, 's', vals}
				c.D("strings into %q: %v", name, vals)
			case "replace":
				vals := genVals(c, col.kind, len(col.vals), &tabOpts{})
				setRaw(dataframe.DataBuilder{RawData: raw}, col.kind, name, append([]interface{}(nil), vals...))
				m.cols[name] = &Col{name, col.kind, vals}
				c.D("replace %q by %v", name, vals)
			}
			c.expectModel("after a step", raw, m)
		}
		tt := m.table()
		c.NT(len(m.cols) >= 2 && tt != nil && tt.n > 0)
		// the dataframe shares its data with the RawData
		if tt != nil && tt.n > 0 {
			a, b := raw.ToDataFrame(), raw.ToDataFrame()
			for _, name := range m.names() {
				if m.cols[name].kind == 'f' {
					a.Floats(name).Set(tt.n-1, 4321)
					m.cols[name].vals[tt.n-1] = 4321.0
				}
			}
			c.expect("another dataframe of the same RawData", b, m.table())
			c.expectModel("the RawData itself", raw, m)
		}
	})
}

func TestC32_MergeColumns(t *testing.T) {
	Prop(t, "1 to 4 RawData with different columns are merged column-wise, or transferred into each other; the data are shared afterwards; non-trivial: at least 2 of them have columns, and there are rows", 700, func(c *Case) {
		k := c.Int("raws", 1, 4)
		n := genRows(c, 0, 40)
		var raws []*dataframe.RawData
		var models []*rawModel
		all := &rawModel{map[string]*Col{}}
		withCols := 0
		cm := pick(c, "encoding", nil, charmap.ISO8859_1)
		cpu := pick(c, "cpu", 1, 2, 3)
		for j := 0; j < k; j++ {
			var names []string
			for i, m := 0, c.Int("columns", 0, 3); i < m; i++ {
				names = append(names, fmt.Sprintf("%s%d", plainNames[i], j))
			}
			raw, m := genRaw(c, fmt.Sprintf("raw %d", j), names, n, false)
			if cm != nil {
				(dataframe.DataBuilder{RawData: raw}).TextEncoding(cm)
			}
			raw.SetMaxCPU(cpu)
			raws, models = append(raws, raw), append(models, m)
			for name, col := range m.clone().cols {
				all.cols[name] = col
			}
			if len(names) > 0 {
				withCols++
			}
		}
		var merged *dataframe.RawData
		if c.Bool("transfer") {
			merged = dataframe.NewRawData()
			for _, r := range raws {
				merged.TransferRawDataFrom(r)
			}
		} else {
			merged = dataframe.MergeRawDataColumns(raws)
			if merged.ActualMaxCPU() != clipCPU(cpu) {
				c.Bad("MergeRawDataColumns changes MaxCPU from %d to %d", clipCPU(cpu), merged.ActualMaxCPU())
			}
		}
		c.expectModel("merged", merged, all)
		for j := range raws {
			c.expectModel(fmt.Sprintf("raw %d afterwards", j), raws[j], models[j])
		}
		c.NT(withCols >= 2 && n > 0)
		if n == 0 || len(all.cols) == 0 {
			return
		}
		// one is written to, all see it
		i := c.Int("row", 0, n-1)
		md := merged.ToDataFrame()
		for j, m := range models {
			if len(m.cols) == 0 {
				continue
			}
			d := raws[j].ToDataFrame()
			for _, name := range m.names() {
				dst := d
				if c.Bool("through the merged one") {
					dst = md
				}
				var v interface{}
				switch m.cols[name].kind {
				case 'f':
					dst.Floats(name).Set(i, 55.5)
					v = 55.5
				case 'i':
					dst.Ints(name).Set(i, 55)
					v = 55
				case 'b':
					v = !m.cols[name].vals[i].(bool)
					dst.Bools(name).Set(i, v.(bool))
				default:
					v = "fifty-five"
					dst.Objects(name).Set(i, v)
				}
				m.cols[name].vals[i], all.cols[name].vals[i] = v, v
			}
			c.expectModel(fmt.Sprintf("raw %d after a write", j), raws[j], m)
		}
		c.expectModel("merged after a write", merged, all)
		// restructuring the merged one leaves the others alone
		have := all.names()
		drop := have[c.Int("drop", 0, len(have)-1)]
		merged.Drop(drop)
		delete(all.cols, drop)
		c.expectModel("merged after Drop", merged, all)
		for j := range raws {
			c.expectModel(fmt.Sprintf("raw %d after Drop on the merged one", j), raws[j], models[j])
		}
	})
}

func TestC32_MergeRows(t *testing.T) {
	Prop(t, "1 to 4 RawData with the same columns, some of them without rows, are merged row-wise; nothing is shared afterwards; non-trivial: at least 2 of them have rows", 700, func(c *Case) {
		k := c.Int("raws", 1, 4)
		names := plainNames[:c.Int("columns", 1, 4)]
		kinds := make([]Kind, len(names))
		for i := range kinds {
			kinds[i] = Kind(pick(c, "kind", []byte("fibso")...))
		}
		cm := pick(c, "encoding", nil, charmap.ISO8859_1)
		cpu := pick(c, "cpu", 1, 2, 3)
		mismatch := c.Chance("mismatch", 8)
		var raws []*dataframe.RawData
		var parts []*Table
		want := newTable(0)
		for i, name := range names {
			want.set(name, kinds[i], nil)
		}
		withRows := 0
		for j := 0; j < k; j++ {
			t := newTable(genRows(c, 0, 40))
			for i, name := range names {
				t.set(name, kinds[i], genVals(c, kinds[i], t.n, &tabOpts{}))
				want.cols[name].vals = append(want.cols[name].vals, t.cols[name].vals...)
			}
			want.n += t.n
			if t.n > 0 {
				withRows++
			}
			c.D("raw %d: %s", j, t)
			b := builderOf(t, cpu)
			if cm != nil {
				b.TextEncoding(cm)
			}
			raws, parts = append(raws, b.RawData), append(parts, t)
		}
		if mismatch && withRows >= 2 {
			// one of those with rows has an additional column
			var which []int
			for j, t := range parts {
				if t.n > 0 {
					which = append(which, j)
				}
			}
			r := raws[which[c.Int("which", 0, len(which)-1)]]
			switch pick(c, "additional", []byte("fibso")...) {
			case 'f':
				r.AllocFloats("additional")
			case 'i':
				r.AllocInts("additional")
			case 'b':
				r.AllocBools("additional")
			case 's':
				r.AllocStrings("additional")
			case 'o':
				r.AllocObjects("additional")
			}
			m := dataframe.MergeRawDataRows(raws)
			if !m.Header().NameSet()["additional"] {
				c.Bad("MergeRawDataRows drops a column that some RawData do not have")
			}
			if panics(func() { m.ToDataFrame() }) == nil {
				c.Bad("ToDataFrame does not panic after MergeRawDataRows of RawData with different columns")
			}
			return
		}
		merged := dataframe.MergeRawDataRows(raws)
		if merged.ActualMaxCPU() != clipCPU(cpu) {
			c.Bad("MergeRawDataRows changes MaxCPU from %d to %d", clipCPU(cpu), merged.ActualMaxCPU())
		}
		md := c.expectRaw("merged", merged, want)
		c.NT(withRows >= 2)
		// the encoding is kept
		if cm != nil && md.NumRows() > 0 {
			v := md.View()
			v.Unshare()
			dec := want.clone()
			ok := true
			for _, name := range want.names("s") {
				for i, x := range want.cols[name].vals {
					if s, isStr := x.(string); isStr {
						u, err := cm.NewDecoder().String(s)
						ok = ok && err == nil
						dec.cols[name].vals[i] = u
					}
				}
			}
			cp := md.Copy()
			if err := cp.Encode(nil); (err == nil) != ok {
				c.Bad("decoding the merged data: %v", err)
			}
			if ok {
				c.expect("the merged data in UTF-8", cp, dec)
			}
		}
		// nothing is shared
		if c.Chance("restructure", 4) {
			// neither are the structures
			all := append([]*dataframe.RawData{merged}, raws...)
			which := all[c.Int("restructured", 0, len(all)-1)]
			before := make([]string, len(all))
			for j, r := range all {
				before[j] = headers(r)
			}
			have := which.Header().NameList()
			if c.Bool("drop") && len(have) > 0 {
				sort.Strings(have)
				which.Drop(have[c.Int("drop", 0, len(have)-1)])
			} else {
				switch pick(c, "new column", []byte("fibso")...) {
				case 'f':
					which.AllocFloats("new")
				case 'i':
					which.AllocInts("new")
				case 'b':
					which.AllocBools("new")
				case 's':
					which.AllocStrings("new")
				default:
					which.AllocObjects("new")
				}
			}
			for j, r := range all {
				if h := headers(r); r != which && h != before[j] {
					c.Bad("restructuring one of the RawData after MergeRawDataRows changes the columns of another from %s to %s", before[j], h)
				}
			}
			return
		}
		for j, r := range raws {
			if parts[j].n == 0 {
				continue
			}
			d := r.ToDataFrame()
			for _, name := range names {
				switch parts[j].cols[name].kind {
				case 'f':
					d.Floats(name).Set(0, 4321)
				case 'i':
					d.Ints(name).Set(0, 4321)
				case 'b':
					d.Bools(name).Set(0, !parts[j].cols[name].vals[0].(bool))
				default:
					d.Objects(name).Set(0, "changed")
				}
			}
		}
		c.expect("the merged data after the parts were changed", md, want)
	})
}

// -------------------------------------------------------------- C33 headers

func TestC33_Headers(t *testing.T) {
	Prop(t, "random expressions of And, Except, ExceptHeader and Copy over column headers, made by hand or taken from a dataframe, against sets; non-trivial: at least 3 operations", 1500, func(c *Case) {
		pool := append(append([]string(nil), plainNames...), "", "x y", "é")
		genNames := func() []string {
			var out []string
			if c.Chance("many names", 12) {
				from, k := c.Int("from", 0, 90), pick(c, "how many", 30, 62, 63, 64, 65, 128, 260)
				for i := from; i < from+k; i++ {
					out = append(out, fmt.Sprint("n", i))
				}
				return out
			}
			for i, k := 0, c.Int("n", 0, 5); i < k; i++ {
				out = append(out, pool[c.Int("name", 0, len(pool)-1)])
			}
			return out
		}
		toSet := func(names []string) map[string]bool {
			m := map[string]bool{}
			for _, n := range names {
				m[n] = true
			}
			return m
		}
		t := genTable(c, tabOpts{maxRows: 3, names: pool})
		df := build(c, t)
		type hs struct {
			h dataframe.ColumnHeader
			m map[string]bool
		}
		check := func(what string, x hs) {
			if x.h.Num() != len(x.m) {
				c.Bad("%s: Num() is %d instead of %d", what, x.h.Num(), len(x.m))
			}
			l := x.h.NameList()
			if fmt.Sprintf("%q", sortedCopy(l)) != fmt.Sprintf("%q", sortedKeys(x.m)) {
				c.Bad("%s: NameList() is %q instead of %q", what, l, sortedKeys(x.m))
			}
			s := x.h.NameSet()
			for n := range x.m {
				if !s[n] {
					c.Bad("%s: %q is not in NameSet()", what, n)
				}
			}
			if len(s) != len(x.m) {
				c.Bad("%s: NameSet() has %d names instead of %d", what, len(s), len(x.m))
			}
			for i := range l {
				l[i] = "scribble" // must not change the header
			}
			if x.h.Num() != len(x.m) || x.h.NameSet()["scribble"] {
				c.Bad("%s: changing the list of names changes the header", what)
			}
		}
		fresh := func() hs {
			switch c.Int("leaf", 0, 3) {
			case 0:
				var h dataframe.ColumnHeader
				return hs{h, map[string]bool{}}
			case 1, 2:
				names := genNames()
				c.D("Columns(%q)", names)
				return hs{dataframe.Columns(names...), toSet(names)}
			default:
				kinds := pick(c, "header", "f", "i", "b", "so", "s", "fibso")
				c.D("header %s of the dataframe", kinds)
				var h dataframe.ColumnHeader
				switch kinds {
				case "f":
					h = df.FloatHeader()
				case "i":
					h = df.IntHeader()
				case "b":
					h = df.BoolHeader()
				case "so":
					h = df.ObjectHeader()
				case "s":
					h = df.StringHeader()
				case "fibso":
					h = df.Header()
				}
				return hs{h, toSet(t.names(kinds))}
			}
		}
		acc := fresh()
		check("header", acc)
		k := c.Int("ops", 1, 7)
		for s := 0; s < k; s++ {
			op := pick(c, "op", "And", "Except", "ExceptHeader", "Copy")
			switch op {
			case "And", "ExceptHeader":
				var args []dataframe.ColumnHeader
				var others []hs
				for i, m := 0, c.Int("args", 0, 3); i < m; i++ {
					o := fresh()
					others = append(others, o)
					args = append(args, o.h)
				}
				c.D("%s of %d", op, len(args))
				m := map[string]bool{}
				for n := range acc.m {
					m[n] = true
				}
				for _, o := range others {
					for n := range o.m {
						if op == "And" {
							m[n] = true
						} else {
							delete(m, n)
						}
					}
				}
				if op == "And" {
					acc = hs{acc.h.And(args...), m}
				} else {
					acc = hs{acc.h.ExceptHeader(args...), m}
				}
				for _, o := range others {
					check("argument of "+op, o)
				}
			case "Except":
				names := genNames()
				c.D("Except(%q)", names)
				m := map[string]bool{}
				for n := range acc.m {
					m[n] = true
				}
				for _, n := range names {
					delete(m, n)
				}
				acc = hs{acc.h.Except(names...), m}
			case "Copy":
				c.D("Copy")
				old := acc
				cp := hs{acc.h.Copy(), map[string]bool{}}
				for n := range old.m {
					cp.m[n] = true
				}
				check("copy", cp)
				// changes to the copy do not reach the original, nor the reverse
				if c.Bool("change the copy") {
					ch := cp.h.And(dataframe.Columns("zzz")).Except(pool[0])
					_ = ch
					check("original after its copy was changed", old)
				} else {
					ch := old.h.And(dataframe.Columns("zzz")).Except(pool[0])
					_ = ch
					check("copy after the original was changed", cp)
					acc = cp
				}
			}
			check("after "+op, acc)
		}
		// headers are taken from the dataframe, not shared with it
		c.expect("the dataframe", df, t)
		c.NT(k >= 3)
	})
}

// ------------------------------------------------------------- C34 printing

// capture returns what f prints on the standard output.
func capture(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	out := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		r.Close()
		out <- string(b)
	}()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	return <-out
}

// printed is how a value is documented to be printed; "" if that is not
// specified.
func printed(v interface{}, kind Kind, format string) (string, bool) {
	if v == nil {
		return " <missing>", true
	}
	switch kind {
	case 'f':
		return fmt.Sprintf(" "+format, v), true
	case 'i':
		return fmt.Sprintf(" %d", v), true
	case 'b':
		if v.(bool) {
			return " 1", true
		}
		return " 0", true
	case 's':
		return fmt.Sprintf(" '%s'", v), true
	}
	return "", false
}

var printNames = []string{"a", "b", "abc", "abcd", "abcde", "abx", "100%", "%d", "x y", "é", "%s%n", "A"}

var prefixRE = regexp.MustCompile(`^\[ *(\d+): *(\d+)\]`)

func TestC34_Print(t *testing.T) {
	Prop(t, "PrintHead, PrintRecords and PrintSummary of views are captured and compared with the values; non-trivial: at least 2 rows and 2 columns", 500, func(c *Case) {
		o, vo := tabOpts{kinds: "fibs", maxRows: 2500, names: printNames, minCols: 1}, viewOpts{repeat: true, maxOps: 3, grow: 2500}
		long := c.Chance("long", 100)
		if long {
			o, vo = tabOpts{kinds: "fibs", minRows: 10002, maxRows: 10050, names: printNames, minCols: 1, maxCols: 2}, viewOpts{repeat: true, maxOps: 1, grow: 11000, minRows: 10002}
		}
		f := genFrame(c, o, vo)
		df, tt := f.df, f.t
		n := c.Int("n", -1, tt.n+2)
		if long && c.Chance("all", 2) {
			n = -1
		}
		show := n
		if n < 0 || n > tt.n {
			show = tt.n
		}
		format := pick(c, "format", "", "%.4f", "%g", "%e")
		effective := format
		if format == "" {
			effective = "%.3f"
		}
		c.D("print %d of %d rows with format %q", n, tt.n, format)
		// PrintHead: one line per column
		var want []string
		for _, name := range tt.all() {
			var line strings.Builder
			line.WriteString(name + ":")
			for i := 0; i < show; i++ {
				s, _ := printed(tt.cols[name].vals[i], tt.cols[name].kind, effective)
				line.WriteString(s)
			}
			want = append(want, strings.Split(line.String(), "\n")...)
		}
		var back *dataframe.DataFrame
		got := strings.Split(strings.TrimSuffix(capture(func() { back = df.PrintHead(n, format) }), "\n"), "\n")
		if a, b := strings.Join(sortedCopy(got), "\n"), strings.Join(sortedCopy(want), "\n"); a != b {
			c.Bad("PrintHead prints\n%s\ninstead of\n%s", a, b)
		}
		if back != df {
			c.Bad("PrintHead does not return the dataframe itself")
		}
		// PrintRecords: one line per row
		var short map[string]string
		switch c.Int("short names", 0, 2) {
		case 1:
			short = df.GoodShortNames(c.Int("min", -1, 4))
		case 2:
			short = map[string]string{"a": "%v", "abc": "z"}
		}
		text := capture(func() { back = df.PrintRecords(n, format, short) })
		if back != df {
			c.Bad("PrintRecords does not return the dataframe itself")
		}
		for i := 0; i < show; i++ {
			m := prefixRE.FindStringSubmatch(text)
			if m == nil || m[1] != fmt.Sprint(i) {
				c.Bad("record %d starts with %q", i, clip(text, 60))
			}
			text = text[len(m[0]):]
			for _, name := range tt.all() {
				s, _ := printed(tt.cols[name].vals[i], tt.cols[name].kind, effective)
				label := name
				if l, ok := short[name]; ok {
					label = l
				}
				s = " " + label + ":" + s
				if !strings.HasPrefix(text, s) {
					c.Bad("record %d, column %q: %q instead of %q", i, name, clip(text, len(s)+20), s)
				}
				text = text[len(s):]
			}
			if !strings.HasPrefix(text, "\n") {
				c.Bad("record %d continues with %q", i, clip(text, 60))
			}
			text = text[1:]
		}
		if text != "" {
			c.Bad("PrintRecords(%d) prints more than %d records: %q", n, show, text)
		}
		// PrintSummary
		lines := strings.Split(capture(func() { back = df.PrintSummary() }), "\n")
		if back != df {
			c.Bad("PrintSummary does not return the dataframe itself")
		}
		for _, w := range []struct{ label, kinds string }{{"float  ", "f"}, {"int    ", "i"}, {"bool   ", "b"}, {"string ", "s"}} {
			names := tt.names(w.kinds)
			line := fmt.Sprintf("%s %s", w.label, names)
			if (len(names) > 0) != contains(lines, line) {
				c.Bad("PrintSummary prints %q; expected the line %q", lines, line)
			}
		}
		if !contains(lines, fmt.Sprintf("rows    %d", tt.n)) || !contains(lines, fmt.Sprintf("max CPU %d", df.ActualMaxCPU())) {
			c.Bad("PrintSummary prints %q; expected %d rows and %d CPUs", lines, tt.n, df.ActualMaxCPU())
		}
		c.expect("the dataframe after it was printed", df, tt)
		c.NT(show >= 2 && len(tt.cols) >= 2)
	})
}

func TestC34_ShortNames(t *testing.T) {
	Prop(t, "GoodShortNames of columns with common prefixes; non-trivial: at least 3 columns", 600, func(c *Case) {
		df := dataframe.EmptyDataFrame(1, 1)
		names := map[string]bool{}
		alphabet := pick(c, "alphabet", "ab", "ab", "a b", "aA", "a.")
		common := strings.Repeat("common_", c.Int("common prefix", 0, 4))
		for i, k := 0, pick(c, "columns", c.Int("some", 0, 12), c.Int("many", 0, 40)); i < k; i++ {
			name := rapid.StringOfN(rapid.SampledFrom([]rune(alphabet)), 1, 7, -1).Draw(c.T, "name")
			if c.Chance("with prefix", 2) {
				name = common + name
			}
			if !names[name] {
				df.AllocInts(name)
			}
			names[name] = true
		}
		min := c.Int("min", -1, 5)
		c.D("GoodShortNames(%d) of %q", min, sortedKeys(names))
		short := df.GoodShortNames(min)
		if min <= 0 {
			min = 3
		}
		shown := map[string]string{}
		for name := range names {
			label := name
			if s, ok := short[name]; ok {
				label = s
				if len(s) < min || !strings.HasPrefix(name, s) {
					c.Bad("%q is shortened to %q (minimum %d)", name, s, min)
				}
			}
			if o, ok := shown[label]; ok {
				c.Bad("%q and %q are both shown as %q", o, name, label)
			}
			shown[label] = name
		}
		for label, name := range shown {
			for i := min; i < len(label); i++ {
				if shown[label[:i]] == "" && !names[label[:i]] {
					c.Bad("%q is shown as %q although %q means nothing else", name, label, label[:i])
				}
			}
		}
		for name := range short {
			if !names[name] {
				c.Bad("%q is given the short name %q but is not a column", name, short[name])
			}
		}
		c.NT(len(names) >= 3)
	})
}

// ---------------------------------------------------------------- C35 utils

func TestC35_Queue(t *testing.T) {
	Prop(t, "0 to 60 (sometimes up to 5000) jobs are processed by the workers of a StringQ, some of which fail; every job must be delivered and reported exactly once; non-trivial: at least 2 jobs and 2 workers", 600, func(c *Case) {
		k := c.Int("jobs", 0, 60)
		many := c.Chance("many jobs", 15)
		if many {
			k = c.Int("more jobs", 61, 700)
			if c.Chance("a great many jobs", 4) {
				k = c.Int("many more jobs", 701, 5000)
			}
		}
		src := c.source(k)
		var keys []string
		repeated := c.Chance("repeated keys", 4)
		for i := 0; i < k; i++ {
			key := fmt.Sprintf("k%d", i)
			if repeated && src.n(3) > 0 && i > 0 {
				key = keys[src.n(i)]
			}
			if i == 3 && c.Bool("empty key") {
				key = ""
			}
			keys = append(keys, key)
		}
		orig := append([]string(nil), keys...)
		max := c.Int("workers", 1, 9)
		// which deliveries of a key fail: the first, the second…
		bad := map[string]bool{}
		jobName := func(key string, i int) string { return fmt.Sprintf("%s.%d", key, i) }
		count := map[string]int{}
		for _, key := range keys {
			if src.n(5) == 4 || repeated && src.n(3) == 0 {
				bad[jobName(key, count[key])] = true
			}
			count[key]++
		}
		results := c.Bool("results")
		c.D("%d jobs, %d different keys, %d workers, fail %v", k, len(count), max, sortedKeys(bad))
		c.Risky()
		q := utils.CreateStringQueue(keys, max)
		if strings.Join(keys, ",") != strings.Join(orig, ",") {
			c.Bad("CreateStringQueue reorders the caller's slice")
		}
		if q.Workers < 1 || q.Workers > max || (k > 0 && q.Workers > k) || q.NumJobs != k {
			c.Bad("%d workers (maximum %d) and %d jobs of %d", q.Workers, max, q.NumJobs, k)
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		done := map[string]int{}
		finished := 0
		for w := 0; w < q.Workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for key := range q.Keys {
					mu.Lock()
					name := jobName(key, done[key])
					done[key]++
					finished++
					mu.Unlock()
					job := utils.ProcessedJob{Key: key, Result: name}
					if bad[name] {
						job.Error = io.ErrUnexpectedEOF
					}
					q.Notify(job)
				}
			}()
		}
		if results {
			seen := map[string]int{}
			for _, r := range q.Results() {
				name, ok := r.Result.(string)
				if !ok || !strings.HasPrefix(name, r.Key+".") || (r.Error != nil) != bad[name] {
					c.Bad("the result of %q is %+v", r.Key, r)
				}
				seen[name]++
			}
			for key, n := range count {
				for i := 0; i < n; i++ {
					if seen[jobName(key, i)] != 1 {
						c.Bad("job %q, delivered %d times, is reported %d times the %dth time", key, n, seen[jobName(key, i)], i)
					}
				}
			}
		} else {
			q.Wait()
			mu.Lock()
			if finished != k {
				c.Bad("Wait returns after %d of %d jobs", finished, k)
			}
			mu.Unlock()
		}
		wg.Wait()
		for key, n := range count {
			if done[key] != n {
				c.Bad("job %q is delivered %d times instead of %d", key, done[key], n)
			}
		}
		c.NT(k >= 2 && q.Workers >= 2)
	})
}

func TestC35_Helpers(t *testing.T) {
	Prop(t, "the helpers that split lists, make ranges, sort and search, against their definition; non-trivial: at least 2 elements", 1500, func(c *Case) {
		n := c.Int("n", 0, 60)
		if c.Chance("large", 10) {
			n = c.Int("n", 60, 3000)
		}
		list := make([]string, n)
		src := c.source(n)
		for i := range list {
			list[i] = fmt.Sprint(src.n(20))
		}
		groups := c.Int("groups", 0, n+3)
		c.D("SplitStringSlice of %d, %d groups", n, groups)
		parts := utils.SplitStringSlice(list, groups)
		if groups > 0 {
			var all []string
			for i, p := range parts {
				if len(p) > (n+groups-1)/groups && len(p) > 1 {
					c.Bad("SplitStringSlice: part %d of %d has %d of %d elements", i, groups, len(p), n)
				}
				all = append(all, p...)
			}
			if strings.Join(all, ",") != strings.Join(list, ",") || len(all) != n {
				c.Bad("SplitStringSlice of %q gives %q", list, parts)
			}
			if len(parts) > groups {
				c.Bad("SplitStringSlice gives %d groups instead of %d", len(parts), groups)
			}
		} else if len(parts) != 0 {
			c.Bad("SplitStringSlice into 0 groups gives %d", len(parts))
		}
		from, to, step := c.Int("from", -20, 20), c.Int("to", -20, 60), c.Int("step", 1, 9)
		if to < from {
			from, to = to, from
		}
		c.D("MakeRange(%d,%d,%d)", from, to, step)
		var want []int
		for x := from; x < to; x += step {
			want = append(want, x)
		}
		if got := utils.MakeRange(from, to, step); fmt.Sprint(got) != fmt.Sprint(want) {
			c.Bad("MakeRange(%d,%d,%d) is %v", from, to, step, got)
		}
		vals := toFloats(genVals(c, 'f', n, &tabOpts{}))
		orig := append([]float64(nil), vals...)
		readonly := c.Bool("readonly")
		inds := utils.FloatArgSort(vals, readonly)
		if len(inds) != n {
			c.Bad("FloatArgSort returns %d indices instead of %d", len(inds), n)
		}
		seen := make([]bool, n)
		for j, i := range inds {
			if i < 0 || i >= n || seen[i] {
				c.Bad("FloatArgSort returns %v", inds)
			}
			seen[i] = true
			if j > 0 && (orig[inds[j-1]] > orig[i] || (math.IsNaN(orig[inds[j-1]]) && !math.IsNaN(orig[i]))) {
				c.Bad("FloatArgSort: element %d is %v after %v", j, orig[i], orig[inds[j-1]])
			}
			if readonly && !sameVal(orig[i], vals[i]) {
				c.Bad("FloatArgSort changes its read-only argument")
			}
		}
		if groups > 0 {
			// the group indexer covers 0..n-1 with consecutive non-empty groups
			g := utils.CreateGroupIndexer(n, groups)
			if c.Chance("initialized again", 4) {
				g = utils.CreateGroupIndexer(c.Int("first elements", 0, 40), c.Int("first groups", 1, 9))
				for k := c.Int("first steps", 0, 9); k > 0 && g.HasNext(); k-- {
					g.Next()
				}
				g.Initialize(n, groups)
			}
			at, k := 0, 0
			for g.HasNext() {
				i, a, b := g.Next()
				if i != k || a != at || b <= a || b > n || b-a > (n+groups-1)/groups {
					c.Bad("GroupIndexer(%d, %d) gives group %d = [%d, %d) after %d groups ending at %d", n, groups, i, a, b, k, at)
				}
				at, k = b, k+1
			}
			if at != n || k > g.NGroups || g.NGroups > groups {
				c.Bad("GroupIndexer(%d, %d) gives %d of %d groups covering %d", n, groups, k, g.NGroups, at)
			}
		}
		if groups > 0 {
			if panics(func() { utils.CreateGroupIndexer(n, -groups) }) == nil {
				c.Bad("GroupIndexer accepts %d groups", -groups)
			}
		}
		hashed := toInts(genVals(c, 'i', n, &tabOpts{}))
		if h := utils.HashIntSlice(hashed); h != utils.HashIntSlice(append([]int(nil), hashed...)) {
			c.Bad("HashIntSlice of equal slices differs")
		}
		x := fmt.Sprint(c.Int("element", 0, 21))
		first := -1
		for i, s := range list {
			if s == x {
				first = i
				break
			}
		}
		if got := utils.IndexOfString(x, list); got != first {
			c.Bad("IndexOfString(%q, %q) is %d instead of %d", x, list, got, first)
		}
		set := utils.ToStringSet(list)
		keys := utils.StringSetKeys(set)
		m := map[string]bool{}
		for _, s := range list {
			m[s] = true
		}
		if !sameNames(keys, sortedKeys(m)) || len(set) != len(m) {
			c.Bad("ToStringSet/StringSetKeys of %q: %q", list, keys)
		}
		c.NT(n >= 2)
	})
}

// headers lists the columns of each type.
func headers(r *dataframe.RawData) string {
	list := func(h dataframe.ColumnHeader) []string {
		l := h.NameList()
		sort.Strings(l)
		return l
	}
	return fmt.Sprintf("%q float %q int %q bool %q string %q object %q", list(r.Header()), list(r.FloatHeader()), list(r.IntHeader()),
		list(r.BoolHeader()), list(r.StringHeader()), list(r.ObjectHeader()))
}
