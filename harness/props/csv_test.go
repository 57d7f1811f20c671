package props

import (
	"bytes"
	"context"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/iotest"
	"time"
	"unicode"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"golang.org/x/text/encoding/charmap"
)

// ---------------------------------------------------------------- reference

// inferred is what FromCSV documents for these records.
func inferred(records [][]string, header []string, spec dataframe.CSVReadingSpec) *Table {
	missing := map[string]bool{}
	for _, s := range spec.MissingValues {
		missing[s] = true
	}
	t := newTable(len(records))
	for j, name := range header {
		if contains(spec.Exclude, name) {
			continue
		}
		isBool, isBin, isInt, isFloat := true, true, true, true
		for _, rec := range records {
			v := rec[j]
			if _, err := strconv.ParseBool(v); err != nil {
				isBool = false
			}
			if v != "0" && v != "1" {
				isBin = false
			}
			if missing[v] {
				continue
			}
			if _, err := strconv.ParseInt(v, 10, 64); err != nil {
				isInt = false
			}
			if _, err := strconv.ParseFloat(v, 64); err != nil {
				isFloat = false
			}
		}
		vals := make([]interface{}, len(records))
		kind := Kind('s')
		switch {
		case isBool && (spec.BoolAsFloat || (spec.BinaryAsFloat && isBin)):
			kind = 'f'
			for i, rec := range records {
				vals[i] = 0.0
				if b, _ := strconv.ParseBool(rec[j]); b {
					vals[i] = 1.0
				}
			}
		case isBool:
			kind = 'b'
			for i, rec := range records {
				b, _ := strconv.ParseBool(rec[j])
				vals[i] = b
			}
		case isInt && !spec.IntAsFloat:
			kind = 'i'
			for i, rec := range records {
				vals[i] = -1
				if !missing[rec[j]] {
					x, _ := strconv.ParseInt(rec[j], 10, 64)
					vals[i] = int(x)
				}
			}
		case isFloat:
			kind = 'f'
			for i, rec := range records {
				vals[i] = math.NaN()
				if !missing[rec[j]] {
					vals[i], _ = strconv.ParseFloat(rec[j], 64)
				}
			}
		default:
			for i, rec := range records {
				if !missing[rec[j]] {
					vals[i] = rec[j]
				}
			}
		}
		t.set(name, kind, vals)
	}
	return t
}

func clipCPU(n int) int {
	if n <= 0 || n > runtime.NumCPU() {
		return runtime.NumCPU()
	}
	return n
}

// columns of cells of various flavours
var cellPools = map[string][]string{
	"binary":  {"0", "1"},
	"bool":    {"true", "false", "True", "FALSE", "t", "F", "1", "0", "T", "TRUE"},
	"int":     {"0", "1", "-1", "2", "42", "-7", "+5", "007", "00", "-0", "+0", "9223372036854775807", "-9223372036854775808"},
	"bigint":  {"1", "9223372036854775808", "-9223372036854775809", "5"},
	"float":   {"0.5", "-0", "00.5", "+1.5", "1e3", "-2.25", ".5", "5.", "inf", "-Inf", "NaN", "1", "0", "1e-400", "0x1p-2", "3", "123456789.123456789"},
	"badnum":  {"1e999", "1", "2,5", "0.1.2", "--1", "1_000", "2"},
	"text":    {"a", "b", "", " ", "x y", "é", "1", "true", "a,b", "q\"q", "line\nbreak", " lead", "trail ", "#c", "NA", "-", "日本", "\xe9\xff", "null", "'", ";", "\t"},
	"almostb": {"true", "false", "yes", "0"},
	"almosti": {"1", "2", "3.5", "4"},
	"almostf": {"1.5", "2", "x"},
	"missing": {"-", "NA", "", " "},
}

var cellFlavours = []string{"binary", "bool", "int", "bigint", "float", "badnum", "text", "almostb", "almosti", "almostf", "missing"}

type csvInput struct {
	header  []string
	records [][]string
	spec    dataframe.CSVReadingSpec
	inFile  bool // the header is in the file
	text    string
}

func genSpec(c *Case) dataframe.CSVReadingSpec {
	spec := dataframe.CSVReadingSpec{
		MaxCPU:        pick(c, "cpu", 1, 2, 3, 8, -1, 0, 5, 100),
		IntAsFloat:    c.Chance("IntAsFloat", 3),
		BoolAsFloat:   c.Chance("BoolAsFloat", 4),
		BinaryAsFloat: c.Chance("BinaryAsFloat", 3),
	}
	switch c.Int("missing", 0, 5) {
	case 0:
		spec.MissingValues = []string{"-", "NA"}
	case 1:
		spec.MissingValues = []string{"", " ", "NA", "-"}
	case 2:
		spec.MissingValues = []string{""}
	case 3:
		spec.MissingValues = []string{"0", "NaN", "true", "-1"}
	case 4:
		spec.MissingValues = []string{"-"}
	}
	switch c.Int("comma", 0, 5) {
	case 3:
		spec.Comma = ';'
	case 4:
		spec.Comma = '\t'
	case 5:
		spec.Comma = '|'
	}
	if c.Chance("comment", 4) {
		spec.Comment = '#'
	}
	spec.TrimLeadingSpace = c.Chance("trim", 4) && spec.Comma != '\t'
	return spec
}

func (in *csvInput) comma() rune {
	if in.spec.Comma == 0 {
		return ','
	}
	return in.spec.Comma
}

// writeRecord writes a record in the CSV format, with more quotes than needed
// now and then, and updates rec to what a reader must make of it.
func (in *csvInput) writeRecord(sb *strings.Builder, rec []string, s intSource, eol string) {
	for j, v := range rec {
		if j > 0 {
			sb.WriteRune(in.comma())
		}
		quote := strings.ContainsAny(v, "\"\n\r") || strings.ContainsRune(v, in.comma()) ||
			(v == "" && len(rec) == 1) || (j == 0 && strings.HasPrefix(v, "#")) || s.n(9) == 0
		if !quote && in.spec.TrimLeadingSpace {
			rec[j] = strings.TrimLeftFunc(v, unicode.IsSpace)
			if rec[j] == "" && len(rec) == 1 {
				quote = true
				rec[j] = v
			} else if j == 0 && strings.HasPrefix(rec[j], "#") {
				quote = true
				rec[j] = v
			}
		}
		if quote {
			sb.WriteString("\"" + strings.ReplaceAll(v, "\"", "\"\"") + "\"")
		} else {
			sb.WriteString(v)
		}
	}
	sb.WriteString(eol)
}

func genCSV(c *Case, maxRows int) *csvInput {
	in := &csvInput{spec: genSpec(c), inFile: c.Int("header", 0, 3) < 3}
	ncols := c.Int("cols", 1, 7)
	pool := plainNames
	if c.Chance("odd names", 3) {
		pool = oddNames
	}
	start := c.Int("names", 0, len(pool)-1)
	for j := 0; j < ncols; j++ {
		in.header = append(in.header, pool[(start+j*3)%len(pool)])
	}
	seen := map[string]bool{}
	for j, h := range in.header {
		for seen[h] || (in.spec.TrimLeadingSpace && h == " ") || (ncols == 1 && h == "" && in.inFile) {
			h += "x"
		}
		in.header[j] = h
		seen[h] = true
	}
	n := genRows(c, 0, maxRows)
	if maxRows >= 300 && c.Chance("very wide", 60) {
		// more columns than fit in a byte
		ncols = pick(c, "many cols", 65, 129, 255, 256, 257, 300, 520, 1030)
		for j := len(in.header); j < ncols; j++ {
			in.header = append(in.header, fmt.Sprint("w", j))
		}
		n = c.Int("few records", 0, 4)
	} else if maxRows >= 300 && c.Chance("many records", 40) {
		n = c.Int("records", 900, 3000)
		if ncols > 3 {
			ncols = 3
			in.header = in.header[:ncols]
		}
	}
	flavours := make([]string, ncols)
	s := c.source(n * ncols)
	for j := range flavours {
		if ncols > 60 {
			flavours[j] = cellFlavours[s.n(len(cellFlavours))]
		} else {
			flavours[j] = pick(c, "flavour", cellFlavours...)
		}
	}
	// one column with a single cell of another flavour
	oddCol, oddRow, oddFlavour := -1, -1, ""
	if n > 0 && c.Bool("odd cell") {
		oddCol, oddRow, oddFlavour = c.Int("odd col", 0, ncols-1), c.Int("odd row", 0, n-1), pick(c, "odd flavour", cellFlavours...)
		if c.Chance("odd cell at the end", 3) {
			oddRow = n - 1 - oddRow%2*(n-1)/2
		}
	}
	// a cell or a column of cells that look like others
	oddDeco, decoCol := -1, -1
	if c.Chance("decorated", 4) {
		oddDeco = c.Int("decoration", 0, decorations-1)
		if c.Bool("decorated column") {
			decoCol = c.Int("which column", 0, ncols-1)
		}
	}
	for i := 0; i < n; i++ {
		rec := make([]string, ncols)
		for j := range rec {
			p := cellPools[flavours[j]]
			if i == oddRow && j == oddCol {
				p = cellPools[oddFlavour]
			} else if s.n(12) == 0 && len(in.spec.MissingValues) > 0 && flavours[j] != "bool" && flavours[j] != "binary" {
				p = in.spec.MissingValues
			}
			rec[j] = p[s.n(len(p))]
			if (i == oddRow && oddDeco >= 0 && j == oddCol) || (j == decoCol && s.n(3) > 0) {
				rec[j] = decorate(rec[j], oddDeco)
			}
		}
		in.records = append(in.records, rec)
	}
	var sb strings.Builder
	eol := pick(c, "eol", "\n", "\r\n")
	if in.inFile {
		h := append([]string(nil), in.header...)
		in.writeRecord(&sb, h, s, eol)
		in.header = h
	} else {
		in.spec.Header = append([]string(nil), in.header...)
	}
	for i := range in.records {
		if in.spec.Comment != 0 && s.n(7) == 0 {
			sb.WriteString("# a comment, \"with\" noise" + eol)
		}
		if s.n(15) == 0 {
			sb.WriteString(eol) // blank lines are ignored
		}
		e := eol
		if i == len(in.records)-1 && s.n(3) == 0 && !(ncols == 1 && in.records[i][0] == "") {
			e = "" // no newline at the end of the file
		}
		in.writeRecord(&sb, in.records[i], s, e)
	}
	in.text = sb.String()
	for _, h := range in.header {
		if (ncols <= 60 && c.Chance("exclude", 8)) || (ncols > 60 && s.n(30) == 0) {
			in.spec.Exclude = append(in.spec.Exclude, h)
		}
	}
	if c.Chance("exclude unknown", 9) {
		in.spec.Exclude = append(in.spec.Exclude, "not there")
	}
	return in
}

func (in *csvInput) String() string {
	s := in.spec
	return fmt.Sprintf("spec{cpu %d, header %q, exclude %q, missing %q, intF %v, boolF %v, binF %v, comma %q, comment %q, trim %v, lazy %v}\n%q",
		s.MaxCPU, s.Header, s.Exclude, s.MissingValues, s.IntAsFloat, s.BoolAsFloat, s.BinaryAsFloat, s.Comma, s.Comment, s.TrimLeadingSpace, s.LazyQuotes, in.text)
}

// expectRaw compares a RawData with the reference; the types of columns
// without any cell are not specified.
func (c *Case) expectRaw(what string, raw *dataframe.RawData, want *Table) *dataframe.DataFrame {
	c.Helper()
	if raw == nil {
		c.Bad("%s: nil", what)
	}
	df := raw.ToDataFrame()
	if want.n == 0 || len(want.cols) == 0 {
		got, err := observe(df)
		if err != nil {
			c.Bad("%s: %v", what, err)
		}
		if strings.Join(got.all(), "\x00") != strings.Join(want.all(), "\x00") || (got.n != 0 && len(want.cols) > 0) {
			c.Bad("%s: %d rows, columns %q instead of %q", what, got.n, got.all(), want.all())
		}
		return df
	}
	c.expect(what, df, want)
	return df
}

const ruleC10 = "a CSV is generated with columns of 11 flavours (bools, binary, ints, big ints, floats, text, nearly-x, missing values...), random options and random quoting; non-trivial: at least 2 records and a column that is not text"

func TestC10_Inference(t *testing.T) {
	Prop(t, ruleC10, 2500, func(c *Case) {
		in := genCSV(c, 300)
		c.D("%s", in)
		c.Risky()
		options := fmt.Sprintf("%+v", in.spec)
		raw, err := dataframe.FromCSV(strings.NewReader(in.text), in.spec)
		if err != nil {
			c.Bad("FromCSV: %v", err)
		}
		if fmt.Sprintf("%+v", in.spec) != options {
			c.Bad("FromCSV changes the options from %s to %+v", options, in.spec)
		}
		want := inferred(in.records, in.header, in.spec)
		if raw.ActualMaxCPU() != clipCPU(in.spec.MaxCPU) {
			c.Bad("MaxCPU %d was requested and is %d", in.spec.MaxCPU, raw.ActualMaxCPU())
		}
		df := c.expectRaw("FromCSV", raw, want)
		if df.ActualMaxCPU() != clipCPU(in.spec.MaxCPU) {
			c.Bad("MaxCPU %d was requested and is %d in the dataframe", in.spec.MaxCPU, df.ActualMaxCPU())
		}
		for _, k := range "fibs" {
			if len(want.names(string(k))) > 0 {
				c.L("kind %c", k)
			}
		}
		c.NT(want.n >= 2 && len(want.names("fib")) > 0)
	})
}

// The encoding option declares, but does not apply, the encoding.
func TestC10_Encoding(t *testing.T) {
	Prop(t, "a CSV whose text columns are in latin-1 or windows-1252 is read with the Encoding option, then decoded; non-trivial: some byte is not ASCII", 300, func(c *Case) {
		cm := pick(c, "charmap", charmap.ISO8859_1, charmap.Windows1252, charmap.KOI8R)
		n := c.Int("rows", 1, 8)
		bytesT, textT := newTable(n), newTable(n)
		var sb strings.Builder
		sb.WriteString("a,b\n")
		raw := make([][]interface{}, 4)
		for i := range raw {
			raw[i] = make([]interface{}, n)
		}
		for i := 0; i < n; i++ {
			for j := 0; j < 2; j++ {
				b := "x" + string([]byte{byte(pick(c, "byte", 0xe9, 0xdf, 0xc4, 0x61, 0xd6))})
				s, err := cm.NewDecoder().String(b)
				if err != nil {
					panic(err)
				}
				raw[j][i], raw[j+2][i] = b, s
				sb.WriteString(b)
				if j == 0 {
					sb.WriteByte(',')
				}
				c.NT(s != b)
			}
			sb.WriteByte('\n')
		}
		bytesT.set("a", 's', raw[0]).set("b", 's', raw[1])
		textT.set("a", 's', raw[2]).set("b", 's', raw[3])
		c.D("%s: %q", cm, sb.String())
		data, err := dataframe.FromCSV(strings.NewReader(sb.String()), dataframe.CSVReadingSpec{Encoding: cm, MaxCPU: 2})
		if err != nil {
			c.Bad("FromCSV: %v", err)
		}
		df := c.expectRaw("before decoding", data, bytesT)
		if err := df.Encode(nil); err != nil {
			c.Bad("Encode: %v", err)
		}
		c.expect("after decoding", df, textT)
	})
}

// ---------------------------------------------------------------- C11 globs

func rowMultiset(t *Table) string {
	rows := make([]string, t.n)
	for i := range rows {
		rows[i] = t.row(i)
	}
	sort.Strings(rows)
	return strings.Join(rows, "\n")
}

// sameRows tells whether two tables have the same columns and the same rows in
// any order.
func diffAnyOrder(got, want *Table) string {
	if d := diff(got.rows(nil), want.rows(nil)); d != "" {
		return d
	}
	if got.n != want.n {
		return fmt.Sprintf("%d rows instead of %d", got.n, want.n)
	}
	if rowMultiset(got) != rowMultiset(want) {
		return fmt.Sprintf("the rows differ\n  got  %s\n  want %s", clip(got.String(), 2500), clip(want.String(), 2500))
	}
	return ""
}

func scratch(c *Case) string {
	dir, err := os.MkdirTemp("", "props")
	if err != nil {
		panic(err)
	}
	return dir
}

// genTyped draws a table whose every column is inferred as its kind whichever
// rows are kept.
func genTyped(c *Case, n int, names []string, marker string) *Table {
	t := newTable(n)
	for _, name := range names {
		k := Kind(pick(c, "kind", []byte("fibs")...))
		s := c.source(n)
		vals := make([]interface{}, n)
		for i := range vals {
			switch k {
			case 'f':
				v := []float64{0.5, -1.25, 1e-7, 3.75, 123456.789, -0.0625, 1e21 + 0.5, 0.1 + 0.2}[s.n(8)]
				vals[i] = v
			case 'i':
				vals[i] = []int{2, 3, -1, 100, -7, math.MaxInt64, math.MinInt64, 5}[s.n(8)]
			case 'b':
				vals[i] = s.n(2) == 1
			case 's':
				v := []string{"a", "b", "x y", "é", "a,b", "q\"q", "line\nbreak", " lead", "trail ", "日本", "#x", "\ufeffa", "null", "//"}[s.n(14)]
				vals[i] = v
				if s.n(6) == 0 {
					vals[i] = nil
				}
			}
		}
		if k == 'f' && n > 0 {
			for i := range vals {
				if float64(int64(vals[i].(float64))) == vals[i].(float64) {
					vals[i] = 0.5
				}
			}
		}
		t.set(name, k, vals)
	}
	return t
}

func showCell(v interface{}, marker string) string {
	switch x := v.(type) {
	case nil:
		return marker
	case float64:
		if x != x {
			return marker
		}
		return strconv.FormatFloat(x, 'g', -1, 64)
	case int:
		if x == -1 {
			return marker
		}
		return strconv.Itoa(x)
	case bool:
		return strconv.FormatBool(x)
	case string:
		return x
	}
	panic("cell")
}

func toCSV(t *Table, header []string, marker string, comma rune, noHeader bool) string {
	var sb strings.Builder
	w := csv.NewWriter(&sb)
	w.Comma = comma
	if !noHeader {
		w.Write(header)
	}
	for i := 0; i < t.n; i++ {
		rec := make([]string, len(header))
		for j, h := range header {
			rec[j] = showCell(t.cols[h].vals[i], marker)
		}
		w.Write(rec)
	}
	w.Flush()
	return sb.String()
}

func TestC11_Pattern(t *testing.T) {
	Prop(t, "1 to 12 (sometimes up to 140) CSV files with the same columns, some of them without any row, are read with a glob pattern and any number of CPUs, next to directories and files that the pattern must skip; non-trivial: at least 2 files with rows", 250, func(c *Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		nfiles := c.Int("files", 1, 12)
		if sizeCap >= 9 && c.Chance("many files", 12) {
			nfiles = c.Int("many", 13, 140)
		}
		ncols := c.Int("cols", 1, 4)
		names := plainNames[:ncols]
		if c.Chance("unnamed", 5) && ncols > 1 {
			names = append([]string{""}, names[1:]...)
		}
		total := c.Int("rows", 0, 40)
		if nfiles > 12 {
			total = c.Int("more rows", 2*nfiles, 5*nfiles)
		}
		const marker = "<none>"
		all := genTyped(c, total, names, marker)
		cpu := pick(c, "cpu", 1, 2, 3, 4, 5, 6, 7, 8, -1, 0, 16)
		c.D("cpu=%d table %s", cpu, all)
		comma := pick(c, "comma", ',', ',', ';', '\t', '|')
		noHeader := c.Chance("no header", 5) && total > 0
		// any name will do if it matches
		style := pick(c, "names of files", [2]string{"part%d.csv", "part*.csv"}, [2]string{"part%d.csv", "part*.csv"}, [2]string{"part%d.csv", "part*.csv"},
			[2]string{".part%d.csv", ".part*"}, [2]string{".%d.csv", "*.csv"}, [2]string{"%d", "*"}, [2]string{"%d.csv~", "*"}, [2]string{"_%d.tsv.bak", "_*.bak"}, [2]string{"#a %d#", "#*"}, [2]string{"x%d.CSV", "[xy]?*.CSV"})
		glob := style[1]
		if c.Chance("several directories", 5) {
			glob = filepath.Join("s*", glob)
		}
		place := func(i int) string {
			d := dir
			if glob != style[1] {
				d = filepath.Join(dir, fmt.Sprint("s", i%3))
				os.MkdirAll(d, 0o755)
			}
			return filepath.Join(d, fmt.Sprintf(style[0], i))
		}
		c.D("files named %q, pattern %q", style[0], glob)
		var fileRows [][]int
		at, withRows := 0, 0
		divergent := map[string]bool{}
		for i := 0; i < nfiles; i++ {
			end := at + c.Int("rows", 0, 9)
			if end > total || i == nfiles-1 {
				end = total
			}
			header := append([]string(nil), names...)
			if c.Chance("other order", 3) && !noHeader {
				sort.Sort(sort.Reverse(sort.StringSlice(header)))
			}
			c.D("file %d: rows %d to %d, columns %q", i, at, end, header)
			if end > at {
				withRows++
			}
			for _, h := range all.names("s") {
				some := end == at
				for _, v := range all.cols[h].vals[at:end] {
					some = some || v != nil
				}
				if !some && c.Chance("all missing", 8) {
					divergent[h] = true
				} else if !some {
					all.cols[h].vals[at] = "word"
				}
			}
			if end > at {
				// missing values next to others of their type
				for _, h := range all.names("fi") {
					s := c.source(end - at)
					for i := at + 1; i < end; i++ {
						if s.n(5) == 0 && all.cols[h].kind == 'f' {
							all.cols[h].vals[i] = math.NaN()
						} else if s.n(5) == 0 && all.cols[h].kind == 'i' {
							all.cols[h].vals[i] = -1
						}
					}
				}
			}
			c.D("%s", all.rows(seq(at, end)))
			name := place(i)
			text := toCSV(all.rows(seq(at, end)), header, marker, comma, noHeader)
			if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
				panic(err)
			}
			fileRows = append(fileRows, seq(at, end))
			if c.Chance("link", 8) && (end > at || !noHeader) {
				// the same file by another name
				how := os.Link
				if c.Bool("symlink") {
					how = os.Symlink
				}
				if err := how(name, place(i+3000)); err != nil {
					panic(err)
				}
				c.D("and its link")
				fileRows = append(fileRows, seq(at, end))
			}
			if noHeader && end == at {
				os.Remove(name) // it would not be a CSV file at all
				fileRows = fileRows[:len(fileRows)-1]
			}
			at = end
		}
		var sel []int
		for _, rows := range fileRows {
			sel = append(sel, rows...)
		}
		all = all.rows(sel)
		if c.Bool("noise") {
			os.Mkdir(place(9000), 0o755)
			if glob != "*" {
				os.WriteFile(filepath.Join(dir, "other.txt"), []byte("x,y\n\"broken"), 0o644)
			}
		}
		spec := dataframe.CSVReadingSpec{MaxCPU: cpu, MissingValues: []string{marker}}
		if comma != ',' {
			spec.Comma = comma
		}
		if noHeader {
			spec.Header = names
		}
		useEnc := c.Bool("encoding")
		want := all
		if c.Chance("exclude", 5) && ncols > 1 {
			spec.Exclude = []string{names[0], "no such column"}
			want = want.without(names[0])
			delete(divergent, names[0])
		}
		if useEnc {
			spec.Encoding = charmap.ISO8859_1
		}
		c.Risky()
		raw, err := dataframe.FromCSVFilePattern(filepath.Join(dir, glob), spec)
		if err != nil {
			c.Bad("FromCSVFilePattern: %v", err)
		}
		if raw == nil {
			c.Bad("FromCSVFilePattern finds no file")
		}
		if len(divergent) > 0 {
			// The types are inferred file by file and differ: the merged columns
			// are inconsistent (known finding, see DESIGN.md). A column of nothing
			// but missing values has no type anyway. The other columns are as usual.
			c.L("known finding: types differ between files")
			raw.Drop(sortedKeys(divergent)...)
			want = want.without(sortedKeys(divergent)...)
			if len(want.cols) == 0 {
				return
			}
		}
		c.NT(withRows >= 2)
		c.L("%d CPUs", cpu)
		df := raw.ToDataFrame()
		got, err := observe(df)
		if err != nil {
			c.Bad("FromCSVFilePattern: %v", err)
		}
		if want.n == 0 {
			if got.n != 0 || strings.Join(got.all(), "\x00") != strings.Join(want.all(), "\x00") {
				c.Bad("no rows were expected: %s", got)
			}
		} else if d := diffAnyOrder(got, want); d != "" {
			c.Bad("FromCSVFilePattern: %s", d)
		} else {
			// the rows of each file are in order
			keys := make([]string, got.n)
			for i := range keys {
				keys[i] = rowMultiset(got.rows([]int{i}))
			}
			first := 0
			for f, rows := range fileRows {
				k := 0
				for i := 0; i < len(rows); i++ {
					key := rowMultiset(want.rows([]int{first + i}))
					for k < got.n && keys[k] != key {
						k++
					}
					if k == got.n {
						c.Bad("the rows of file %d are not in order: %s", f, got)
					}
					k++
				}
				first += len(rows)
			}
		}
		if raw.ActualMaxCPU() != clipCPU(cpu) || df.ActualMaxCPU() != clipCPU(cpu) {
			c.Bad("MaxCPU %d was requested and is %d", cpu, raw.ActualMaxCPU())
		}
		if useEnc && want.n > 0 {
			dec := got.clone()
			for _, name := range got.names("s") {
				for i, v := range got.cols[name].vals {
					if v != nil {
						s, _ := charmap.ISO8859_1.NewDecoder().String(v.(string))
						dec.cols[name].vals[i] = s
					}
				}
			}
			if err := df.Encode(nil); err != nil {
				c.Bad("Encode: %v", err)
			}
			c.expect("after decoding", df, dec)
		}
		none, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "nothing*.csv"), spec)
		if none != nil || err != nil {
			c.Bad("FromCSVFilePattern without any match returns (%v, %v) instead of (nil, nil)", none, err)
		}
	})
}

// The known finding on the smallest input: two files whose contents give a
// column two types. All the rows have to be there in one column, or it is the
// known misbehaviour (a column of two types, which ToDataFrame refuses).
func TestC11_KnownTypes(t *testing.T) {
	Prop(t, "two files of one column, of integers in one and of text in the other; non-trivial: always", 0, func(c *Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		os.WriteFile(filepath.Join(dir, "a.csv"), []byte("k,t\n1,5\n2,6\n"), 0o644)
		os.WriteFile(filepath.Join(dir, "b.csv"), []byte("k,t\n3,x\n"), 0o644)
		c.D("two files, column t holds 5 and 6, or x")
		c.NT(true)
		c.Risky()
		raw, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "*.csv"), dataframe.CSVReadingSpec{MaxCPU: 2})
		if err != nil {
			c.L("refused: %v", err)
			return
		}
		h := func(x *dataframe.ColumnHeader) bool { return x.NameSet()["t"] }
		ints, strs := raw.IntHeader(), raw.StringHeader()
		if h(&ints) && h(&strs) && panics(func() { raw.ToDataFrame() }) != nil {
			c.L("KNOWN: a column of two types")
			return
		}
		want := newTable(3).set("k", 'i', []interface{}{1, 2, 3}).set("t", 's', []interface{}{"5", "6", "x"})
		got, err := observe(raw.ToDataFrame())
		if err != nil {
			c.Bad("FromCSVFilePattern: %v", err)
		}
		if d := diffAnyOrder(got, want); d != "" {
			c.Bad("FromCSVFilePattern: %s", d)
		}
	})
}

// Files change between two readings, possibly without their size or time
// changing: what counts is what they contain.
func TestC11_Rewritten(t *testing.T) {
	Prop(t, "1 to 5 CSV files are read by pattern or one by one, rewritten (same size and modification time, or not), damaged, repaired, removed or added, and read again with the same or other options; non-trivial: a file was rewritten", 120, func(c *Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		cpu := pick(c, "cpu", 1, 2, 3, 8, -1)
		content := map[string]string{}
		wants := map[string][]string{}
		broken := map[string]bool{}
		stamp := time.Unix(1500000000, 0)
		write := func(i int) {
			name := filepath.Join(dir, fmt.Sprintf("part%d.csv", i))
			rows := c.Int("rows", 1, 4)
			text := "k,t,f\n"
			var want []string
			for r := 0; r < rows; r++ {
				k, s, f := c.Int("k", 10, 99), pick(c, "t", "aa", "bb", "zz", "éx", "N/"), float64(c.Int("f", 10, 99))+0.5
				text += fmt.Sprintf("%d,%s,%v\n", k, s, f)
				want = append(want, fmt.Sprintf("%d %q %v", k, s, f))
			}
			broken[name] = c.Chance("damaged", 8)
			if broken[name] {
				text = text[:len(text)-1] + ",1\n"
			}
			if c.Chance("replaced by renaming", 4) {
				os.WriteFile(name+"~", []byte(text), 0o600)
				os.Rename(name+"~", name)
			} else {
				os.WriteFile(name, []byte(text), 0o600)
			}
			if c.Bool("same time") {
				os.Chtimes(name, stamp, stamp)
			}
			content[name], wants[name] = text, want
			c.D("%s: %q", filepath.Base(name), text)
		}
		k := c.Int("files", 1, 5)
		for i := 0; i < k; i++ {
			write(i)
		}
		spec := dataframe.CSVReadingSpec{MaxCPU: cpu}
		for round, rounds := 0, c.Int("readings", 2, 4); round < rounds; round++ {
			if round > 0 {
				i := c.Int("which", 0, k)
				name := filepath.Join(dir, fmt.Sprintf("part%d.csv", i))
				if _, ok := content[name]; ok && len(content) > 1 && c.Chance("remove", 4) {
					os.Remove(name)
					delete(content, name)
					c.D("%s removed", filepath.Base(name))
				} else {
					write(i)
					c.NT(true)
				}
				spec.Exclude = nil
				if c.Chance("exclude", 4) {
					spec.Exclude = []string{"t"}
				}
			}
			show := func(raw *dataframe.RawData) []string {
				got, err := observe(raw.ToDataFrame())
				if err != nil {
					c.Bad("%v", err)
				}
				var out []string
				for i := 0; i < got.n; i++ {
					v := func(name string, kind Kind) interface{} {
						col := got.cols[name]
						if col == nil || col.kind != kind {
							c.Bad("there is no column %q of kind %c: %s", name, kind, got)
						}
						return col.vals[i]
					}
					if len(spec.Exclude) > 0 {
						out = append(out, fmt.Sprintf("%d %v", v("k", 'i'), v("f", 'f')))
					} else {
						out = append(out, fmt.Sprintf("%d %q %v", v("k", 'i'), v("t", 's'), v("f", 'f')))
					}
				}
				return out
			}
			var all []string
			anyBroken := false
			for _, name := range sortedKeys(boolKeys(content)) {
				want := wants[name]
				if len(spec.Exclude) > 0 {
					want = nil
					for _, s := range wants[name] {
						f := strings.Fields(s)
						want = append(want, f[0]+" "+f[2])
					}
				}
				all = append(all, want...)
				anyBroken = anyBroken || broken[name]
				if c.Bool("one by one") {
					raw, err := dataframe.FromCSVFile(name, spec)
					if (err != nil) != broken[name] {
						c.Bad("FromCSVFile(%s) returns error %v; the file holds %q", filepath.Base(name), err, content[name])
					}
					if err == nil && fmt.Sprint(show(raw)) != fmt.Sprint(want) {
						c.Bad("FromCSVFile(%s) returns %q instead of %q", filepath.Base(name), show(raw), want)
					}
				}
			}
			c.Risky()
			raw, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "part*.csv"), spec)
			if (err != nil) != anyBroken {
				c.Bad("FromCSVFilePattern returns error %v; damaged files: %v", err, anyBroken)
			}
			if err == nil && fmt.Sprintf("%q", sortedCopy(show(raw))) != fmt.Sprintf("%q", sortedCopy(all)) {
				c.Bad("FromCSVFilePattern returns %q instead of %q", sortedCopy(show(raw)), sortedCopy(all))
			}
		}
	})
}

func boolKeys(m map[string]string) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		out[k] = true
	}
	return out
}

func TestC11_Faults(t *testing.T) {
	Prop(t, "one of 1 to 9 CSV files is malformed or unreadable (dangling link); the pattern must return an error whatever the number of CPUs; non-trivial: at least 2 files", 150, func(c *Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		nfiles := c.Int("files", 1, 9)
		bad := c.Int("bad", 0, nfiles-1)
		how := pick(c, "how", "ragged", "quote", "empty", "dangling")
		cpu := pick(c, "cpu", 1, 2, 3, 8, 4, -1)
		c.D("%d files, number %d is %s, cpu=%d", nfiles, bad, how, cpu)
		for i := 0; i < nfiles; i++ {
			name := filepath.Join(dir, fmt.Sprintf("part%d.csv", i))
			text := "a,b\n5,x\n6,y\n"
			if i == bad {
				switch how {
				case "ragged":
					text = "a,b\n5,x\n6\n"
				case "quote":
					text = "a,b\n5,x\n6,\"y\n"
				case "empty":
					text = "" // not even a header
				case "dangling":
					os.Symlink(filepath.Join(dir, "gone"), name)
					continue
				}
			}
			os.WriteFile(name, []byte(text), 0o644)
		}
		c.Risky()
		raw, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "part*.csv"), dataframe.CSVReadingSpec{MaxCPU: cpu})
		if err == nil {
			c.Bad("FromCSVFilePattern returns no error (and %v)", raw != nil)
		}
		c.NT(nfiles >= 2)
		if _, err := dataframe.FromCSVFile(filepath.Join(dir, "gone"), dataframe.CSVReadingSpec{}); err == nil {
			c.Bad("FromCSVFile of a file that does not exist returns no error")
		}
		if _, err := dataframe.FromCSVFilePattern("[", dataframe.CSVReadingSpec{}); err == nil {
			c.Bad("FromCSVFilePattern with a malformed pattern returns no error")
		}
	})
}

// ---------------------------------------------------------- C12 robustness

func TestC12_ArbitraryBytes(t *testing.T) {
	Prop(t, "arbitrary bytes over a CSV-heavy alphabet are read with random options (given headers of any length, exclusions, lazy quotes); the result must be that of encoding/csv followed by the documented inference, or its error; non-trivial: at least one record is read", 3000, func(c *Case) {
		in := &csvInput{spec: genSpec(c)}
		in.spec.LazyQuotes = c.Chance("lazy", 3)
		alphabet := []string{",", "\n", "a", "1", "0", "\"", ",", "\n", "2", ".", "-", "true", "\r\n", " ", "é", "\xff", ";", "#", "\t", "|", "\r", "NA", "x", "\x00", "\ufeff", "\x1a", "\u00a0", "\u2028", "\v"}
		var sb strings.Builder
		k := c.Int("len", 0, 60)
		regular := c.Bool("regular")
		width := c.Int("width", 1, 4)
		comma := string(in.comma())
		if regular {
			cells := k / 2
			if !c.Chance("ragged", 6) {
				cells -= cells % width
			}
			for i := 0; i < cells; i++ {
				if i > 0 {
					if i%width == 0 {
						sb.WriteString("\n")
					} else {
						sb.WriteString(comma)
					}
				}
				sb.WriteString(pick(c, "cell", "a", "1", "0", "", "2.5", "true", "\"\"", "\"a\nb\"", "-", "NA", "x\"y", "3", "é", "\x1a", " 1", "1 ", "\x00", "\ufeff", "\u00a0", "\\N", "EOF", "\\."))
			}
		} else {
			for i := 0; i < k; i++ {
				sb.WriteString(pick(c, "bytes", alphabet...))
			}
		}
		in.text = sb.String()
		if c.Chance("header", 3) {
			m := c.Int("header len", 1, 4)
			if !c.Bool("any len") {
				m = width
			}
			in.spec.Header = plainNames[:m]
		}
		if c.Chance("exclude", 4) {
			in.spec.Exclude = []string{"a", "", "1"}
		}
		c.D("%s", in)

		// the reference reader
		r := csv.NewReader(strings.NewReader(in.text))
		r.LazyQuotes = in.spec.LazyQuotes
		r.TrimLeadingSpace = in.spec.TrimLeadingSpace
		r.Comma = in.comma()
		r.Comment = in.spec.Comment
		header := in.spec.Header
		records, refErr := r.ReadAll()
		if refErr == nil && len(header) == 0 {
			if len(records) == 0 {
				refErr = io.EOF
			} else {
				header, records = records[0], records[1:]
			}
		}
		c.Risky()
		var raw *dataframe.RawData
		var err error
		if p := panics(func() { raw, err = dataframe.FromCSV(strings.NewReader(in.text), in.spec) }); p != nil {
			c.Bad("FromCSV panics: %v", p)
		}
		if refErr != nil {
			if err == nil {
				c.Bad("FromCSV returns no error, encoding/csv returns: %v", refErr)
			}
			c.L("error")
			return
		}
		if len(records) > 0 && len(header) > len(records[0]) {
			if err == nil {
				c.Bad("FromCSV returns no error though the records have %d fields and the header %d", len(records[0]), len(header))
			}
			c.L("header too long")
			return
		}
		if err != nil {
			c.Bad("FromCSV: %v", err)
		}
		dup := false
		seen := map[string]bool{}
		for _, h := range header {
			dup = dup || seen[h]
			seen[h] = true
		}
		if dup {
			c.L("duplicate names")
			return // which of the columns is kept is not specified
		}
		want := inferred(records, header, in.spec)
		c.expectRaw("FromCSV", raw, want)
		c.NT(len(records) > 0 && len(want.cols) > 0)
		c.L("ok")
	})
}

// faults are what readers and writers may fail with, any of which must be
// reported, however harmless they look.
var faults = []error{errors.New("boom"), io.ErrUnexpectedEOF, fmt.Errorf("read: %w", io.EOF), os.ErrClosed, io.ErrNoProgress,
	io.ErrShortWrite, io.ErrClosedPipe, os.ErrDeadlineExceeded, context.Canceled, syscall.EINTR, syscall.EPIPE, syscall.ENOSPC,
	csv.ErrFieldCount, csv.ErrQuote, &csv.ParseError{Line: 1, Err: csv.ErrFieldCount}, errors.New("")}

func TestC12_ReadFaults(t *testing.T) {
	Prop(t, "the reader of a valid CSV fails at a random byte, or delivers it in small pieces; a failure must be returned, pieces must not matter; non-trivial: at least one record precedes the fault", 600, func(c *Case) {
		in := genCSV(c, 20)
		c.D("%s", in)
		boom := pick(c, "error", faults...)
		k := c.Int("at", 0, len(in.text))
		c.D("fails after %d bytes with: %v", k, boom)
		r := io.MultiReader(strings.NewReader(in.text[:k]), iotest.ErrReader(boom))
		c.Risky()
		_, err := dataframe.FromCSV(r, in.spec)
		if err == nil {
			c.Bad("FromCSV returns no error though the reader failed after %d bytes of %d", k, len(in.text))
		}
		c.NT(k > 20)
		var small io.Reader = strings.NewReader(in.text)
		switch c.Int("pieces", 0, 2) {
		case 0:
			small = iotest.OneByteReader(small)
		case 1:
			small = iotest.HalfReader(small)
		case 2:
			small = iotest.DataErrReader(small)
		}
		raw, err := dataframe.FromCSV(small, in.spec)
		if err != nil {
			c.Bad("FromCSV of a valid CSV in pieces: %v", err)
		}
		c.expectRaw("FromCSV of pieces", raw, inferred(in.records, in.header, in.spec))
	})
}

// ------------------------------------------------------------- C13 writing

// parseCSV is a small CSV reader for what a writer outputs; unlike that of the
// standard library it does not skip empty lines.
func parseCSV(c *Case, text string, comma rune, crlf bool) [][]string {
	eol := "\n"
	if crlf {
		eol = "\r\n"
	}
	var out [][]string
	rec := []string{}
	i := 0
	for i < len(text) {
		// one field
		var f strings.Builder
		if text[i] == '"' {
			i++
			for {
				if i >= len(text) {
					c.Bad("unterminated quote in the output %q", clip(text, 500))
				}
				if text[i] == '"' {
					if i+1 < len(text) && text[i+1] == '"' {
						f.WriteByte('"')
						i += 2
						continue
					}
					i++
					break
				}
				if crlf && strings.HasPrefix(text[i:], "\r\n") {
					f.WriteByte('\n')
					i += 2
					continue
				}
				f.WriteByte(text[i])
				i++
			}
		} else {
			for i < len(text) && !strings.HasPrefix(text[i:], string(comma)) && !strings.HasPrefix(text[i:], eol) {
				if text[i] == '"' || text[i] == '\n' || text[i] == '\r' {
					c.Bad("stray %q in the output %q", text[i], clip(text, 500))
				}
				f.WriteByte(text[i])
				i++
			}
		}
		rec = append(rec, f.String())
		switch {
		case i >= len(text):
			c.Bad("the output does not end with a newline: %q", clip(text, 500))
		case strings.HasPrefix(text[i:], eol):
			i += len(eol)
			out = append(out, rec)
			rec = []string{}
		case strings.HasPrefix(text[i:], string(comma)):
			i += len(string(comma))
			if i == len(text) {
				c.Bad("the output does not end with a newline: %q", clip(text, 500))
			}
		default:
			c.Bad("malformed output %q at %d", clip(text, 500), i)
		}
	}
	return out
}

// readBack turns the output of a writer into a table of the kinds of want.
func readBack(c *Case, what, text string, o dataframe.CSVWritingSpec, want *Table) *Table {
	comma := o.Comma
	if comma == 0 {
		comma = ','
	}
	recs := parseCSV(c, text, comma, o.UseCRLF)
	if len(recs) == 0 {
		c.Bad("%s: no header", what)
	}
	header := recs[0]
	if strings.Join(sortedCopy(header), "\x00") != strings.Join(want.names("fibs"), "\x00") || len(header) != len(want.names("fibs")) {
		c.Bad("%s: the header is %q instead of %q in some order", what, header, want.names("fibs"))
	}
	out := newTable(len(recs) - 1)
	for j, name := range header {
		k := want.cols[name].kind
		vals := make([]interface{}, out.n)
		for i, rec := range recs[1:] {
			if len(rec) != len(header) {
				c.Bad("%s: record %d has %d fields instead of %d: %q", what, i, len(rec), len(header), rec)
			}
			v := rec[j]
			var err error
			switch k {
			case 'f':
				vals[i], err = strconv.ParseFloat(v, 64)
			case 'i':
				vals[i], err = strconv.Atoi(v)
			case 'b':
				vals[i], err = strconv.ParseBool(v)
			case 's':
				vals[i] = v
			}
			if err != nil {
				c.Bad("%s: column %q, record %d: %v", what, name, i, err)
			}
		}
		out.set(name, k, vals)
	}
	return out
}

// written is what the CSV of t must say: no objects, and a marker for missing
// strings.
func written(t *Table, marker string) *Table {
	out := t.only(t.names("fibs"))
	for _, name := range out.names("s") {
		for i, v := range out.cols[name].vals {
			if v == nil {
				out.cols[name].vals[i] = marker
			}
		}
	}
	return out
}

func genWriting(c *Case) dataframe.CSVWritingSpec {
	return dataframe.CSVWritingSpec{
		StringMissingMarker: pick(c, "marker", "", "NA", "-", "a,b", "\"", " "),
		MinRowsPerFile:      pick(c, "min rows", 0, 1, 2, 3, 10, 100, -1),
		MaintainOrder:       c.Bool("maintain order"),
		Comma:               pick(c, "comma", 0, ';', '\t', '|'),
		UseCRLF:             c.Chance("crlf", 3),
	}
}

func genWritable(c *Case) frames {
	if c.Chance("wide", 8) {
		minRows := 0
		if c.Bool("and long") {
			minRows = 520
		}
		return genFrame(c, tabOpts{minCols: 7, maxCols: 14, minRows: minRows, maxRows: 800, kinds: "fibsfibso", force: pick(c, "force", "i", "f", "b", "s", "ifbs")}, viewOpts{repeat: true, cols: true, grow: 1200})
	}
	return genFrame(c, tabOpts{minCols: 1, maxCols: 6, force: pick(c, "force", "i", "f", "b", "s", "ifbs")}, viewOpts{repeat: true, cols: true, grow: 900})
}

const ruleC13 = "a dataframe in a random internal state is written with random options, and the output is parsed by an independent CSV reader; non-trivial: at least 2 rows and 1 column"

func TestC13_To1CSV(t *testing.T) {
	Prop(t, ruleC13, 1000, func(c *Case) {
		f := genWritable(c)
		o := genWriting(c)
		c.D("To1CSV(%+v)", o)
		if len(f.t.names("fibs")) == 0 {
			return
		}
		want := written(f.t, o.StringMissingMarker)
		var buf bytes.Buffer
		if err := f.df.To1CSV(&buf, o); err != nil {
			c.Bad("To1CSV: %v", err)
		}
		got := readBack(c, "To1CSV", buf.String(), o, want)
		if o.MaintainOrder {
			if d := diff(got, want); d != "" {
				c.Bad("To1CSV: %s\n  got  %s\n  want %s", d, clip(got.String(), 2000), clip(want.String(), 2000))
			}
		} else if d := diffAnyOrder(got, want); d != "" {
			c.Bad("To1CSV: %s", d)
		}
		c.NT(f.t.n >= 2)
		c.L("order %v", o.MaintainOrder)
		c.expect("the dataframe after it was written", f.df, f.t)
		c.expect("the original after the dataframe was written", f.root, f.rootT)
	})
}

func checkFiles(c *Case, what string, texts []string, o dataframe.CSVWritingSpec, f frames) {
	want := written(f.t, o.StringMissingMarker)
	got := want.rows(nil)
	per := (f.t.n + len(texts) - 1) / len(texts)
	for i, text := range texts {
		part := readBack(c, fmt.Sprintf("%s, output %d", what, i), text, o, want)
		if part.n > per {
			c.Bad("%s: output %d of %d has %d rows of %d: not evenly split", what, i, len(texts), part.n, f.t.n)
		}
		for _, name := range got.all() {
			got.cols[name].vals = append(got.cols[name].vals, part.cols[name].vals...)
		}
		got.n += part.n
	}
	if o.MaintainOrder {
		if d := diff(got, want); d != "" {
			c.Bad("%s, the outputs one after the other: %s", what, d)
		}
	} else if d := diffAnyOrder(got, want); d != "" {
		c.Bad("%s, all the outputs: %s", what, d)
	}
}

func TestC13_ToCSVs(t *testing.T) {
	Prop(t, ruleC13+", and at least 2 outputs", 600, func(c *Case) {
		f := genWritable(c)
		o := genWriting(c)
		k := c.Int("writers", 1, 9)
		if len(f.t.names("fibs")) == 0 {
			return
		}
		c.D("ToCSVs(%d writers, %+v)", k, o)
		bufs := make([]bytes.Buffer, k)
		ws := make([]io.Writer, k)
		for i := range bufs {
			ws[i] = &bufs[i]
		}
		c.Risky()
		if err := f.df.ToCSVs(ws, o); err != nil {
			c.Bad("ToCSVs: %v", err)
		}
		texts := make([]string, k)
		for i := range bufs {
			texts[i] = bufs[i].String()
		}
		checkFiles(c, "ToCSVs", texts, o, f)
		c.NT(f.t.n >= 2 && k >= 2)
		c.expect("the dataframe after it was written", f.df, f.t)
	})
}

func TestC13_ToCSVDir(t *testing.T) {
	Prop(t, ruleC13+", and at least 2 files", 250, func(c *Case) {
		f := genWritable(c)
		o := genWriting(c)
		if len(f.t.names("fibs")) == 0 {
			return
		}
		f.df.SetMaxCPU(pick(c, "cpu2", 1, 2, 3, 4, 8, -1))
		dir := scratch(c)
		defer os.RemoveAll(dir)
		c.D("ToCSVDir(%+v), %d CPUs", o, f.df.ActualMaxCPU())
		c.Risky()
		prefix := filepath.Join(dir, "out")
		paths, err := f.df.ToCSVDir(o, prefix)
		if err != nil {
			c.Bad("ToCSVDir: %v", err)
		}
		if len(paths) == 0 || len(paths) > f.df.ActualMaxCPU() {
			c.Bad("ToCSVDir writes %d files with %d CPUs", len(paths), f.df.ActualMaxCPU())
		}
		min := o.MinRowsPerFile
		if min <= 0 {
			min = 512
		}
		if f.t.n < min && len(paths) != 1 {
			c.Bad("ToCSVDir writes %d files though there are %d rows (minimum %d per file)", len(paths), f.t.n, min)
		}
		c.L("%d files", len(paths))
		there, _ := filepath.Glob(filepath.Join(dir, "*"))
		if strings.Join(there, "\n") != strings.Join(sortedCopy(paths), "\n") {
			c.Bad("ToCSVDir returns %q and writes %q", paths, there)
		}
		texts := make([]string, len(paths))
		for i, p := range paths {
			if !strings.HasPrefix(p, prefix) || !strings.HasSuffix(p, ".csv") {
				c.Bad("ToCSVDir writes to %q with prefix %q", p, prefix)
			}
			b, err := os.ReadFile(p)
			if err != nil {
				c.Bad("ToCSVDir: %v", err)
			}
			texts[i] = string(b)
		}
		checkFiles(c, "ToCSVDir", texts, o, f)
		// files that exist are replaced, not extended
		if c.Bool("again") {
			small := frames{df: f.df.SliceView(0, f.t.n/2), t: f.t.rows(seq(0, f.t.n/2))}
			if err := small.df.ToCSVFiles(o, paths...); err != nil {
				c.Bad("ToCSVFiles: %v", err)
			}
			for i, p := range paths {
				b, _ := os.ReadFile(p)
				texts[i] = string(b)
			}
			checkFiles(c, "ToCSVFiles on existing files", texts, o, small)
		}
		c.NT(f.t.n >= 2 && len(paths) >= 2)
	})
}

// -------------------------------------------------------- C14 write faults

// brokenWriter accepts `room` bytes.
type brokenWriter struct {
	room  int
	short bool // reports short writes instead of errors
	got   bytes.Buffer
	err   error // errBroken by default
	again int   // the room that there is after a failure
}

var errBroken = errors.New("no space left")

func (w *brokenWriter) Write(p []byte) (int, error) {
	if len(p) <= w.room {
		w.room -= len(p)
		w.got.Write(p)
		return len(p), nil
	}
	n := w.room
	w.room, w.again = w.again, 0
	w.got.Write(p[:n])
	if w.short {
		return n, nil
	}
	if w.err != nil {
		return n, w.err
	}
	return n, errBroken
}

func TestC14_WriterFaults(t *testing.T) {
	Prop(t, "a dataframe is written to a writer that fails after k bytes: for small outputs every k is tried, for large ones a sample with all the boundaries; any failure must be returned, and no failure otherwise; non-trivial: a row was already written when the writer failed", 250, func(c *Case) {
		f := genWritable(c)
		o := genWriting(c)
		c.D("To1CSV(%+v)", o)
		if len(f.t.names("fibs")) == 0 {
			return
		}
		var ok bytes.Buffer
		if err := f.df.To1CSV(&ok, o); err != nil {
			c.Bad("To1CSV: %v", err)
		}
		size := ok.Len()
		ks := seq(0, size)
		if size > 80 {
			ks = []int{0, 1, size / 2, size - 1, size - 2, 4095, 4096, 4097}
			for i := 0; i < 12; i++ {
				ks = append(ks, c.Int("k", 0, size-1))
			}
		}
		head := bytes.IndexByte(ok.Bytes(), '\n')
		for _, k := range ks {
			if k >= size {
				continue
			}
			w := &brokenWriter{room: k, short: c.Chance("short", 6), err: pick(c, "error", faults...)}
			if c.Chance("transient", 4) {
				w.again = 1 << 30
			}
			if err := f.df.To1CSV(w, o); err == nil {
				c.Bad("To1CSV returns no error though the writer failed after %d bytes of %d (short=%v)", k, size, w.short)
			}
			c.NT(k > head+1)
		}
		w := &brokenWriter{room: size}
		if err := f.df.To1CSV(w, o); err != nil {
			c.Bad("To1CSV returns an error though nothing failed: %v", err)
		}
	})
}

func TestC14_ManyWriters(t *testing.T) {
	Prop(t, "a dataframe is written to 1 to 8 writers of which some fail after a random number of bytes; non-trivial: some fail and some do not", 500, func(c *Case) {
		f := genWritable(c)
		o := genWriting(c)
		k := c.Int("writers", 1, 8)
		if len(f.t.names("fibs")) == 0 {
			return
		}
		bufs := make([]bytes.Buffer, k)
		ws := make([]io.Writer, k)
		for i := range bufs {
			ws[i] = &bufs[i]
		}
		c.Risky()
		if err := f.df.ToCSVs(ws, o); err != nil {
			c.Bad("ToCSVs: %v", err)
		}
		broken := 0
		for i := range ws {
			w := &brokenWriter{room: bufs[i].Len()}
			if c.Chance("break", 3) {
				w.room = c.Int("room", 0, bufs[i].Len()-1)
				w.err = pick(c, "error", faults...)
				if c.Chance("transient", 4) {
					w.again = 1 << 30
				}
				broken++
			}
			c.D("writer %d has room for %d of %d bytes", i, w.room, bufs[i].Len())
			ws[i] = w
		}
		err := f.df.ToCSVs(ws, o)
		if (err != nil) != (broken > 0) {
			c.Bad("ToCSVs returns the error %v though %d of %d writers failed", err, broken, k)
		}
		c.NT(broken > 0 && broken < k)
	})
}

func TestC14_Files(t *testing.T) {
	Prop(t, "a dataframe is written to files some of which cannot be opened or are on a full device; non-trivial: there are at least 2 files", 120, func(c *Case) {
		f := genWritable(c)
		o := genWriting(c)
		if len(f.t.names("fibs")) == 0 {
			return
		}
		dir := scratch(c)
		defer os.RemoveAll(dir)
		k := c.Int("files", 1, 5)
		var paths []string
		bad := 0
		for i := 0; i < k; i++ {
			switch c.Int("kind", 0, 4) {
			case 3:
				paths = append(paths, filepath.Join(dir, "missing", "out.csv"))
				bad++
			case 4:
				paths = append(paths, "/dev/full")
				bad++
			default:
				paths = append(paths, filepath.Join(dir, fmt.Sprintf("f%d.csv", i)))
			}
		}
		c.D("ToCSVFiles(%q)", paths)
		// the same for a directory
		o.MinRowsPerFile = pick(c, "min rows", 0, 1, 2, 5, 20, 100)
		good, err := f.df.ToCSVDir(o, filepath.Join(dir, "good"))
		if err != nil {
			c.Bad("ToCSVDir: %v", err)
		}
		blocked := c.Int("blocked", 0, len(good)-1)
		how := pick(c, "how", "full", "directory", "dangling")
		name := strings.Replace(good[blocked], filepath.Join(dir, "good"), filepath.Join(dir, "bad"), 1)
		switch how {
		case "full":
			os.Symlink("/dev/full", name)
		case "directory":
			os.Mkdir(name, 0o755)
		case "dangling":
			os.Symlink(filepath.Join(dir, "missing", "x"), name)
		}
		c.D("ToCSVDir to %d files, number %d blocked: %s", len(good), blocked, how)
		if _, err := f.df.ToCSVDir(o, filepath.Join(dir, "bad")); err == nil {
			c.Bad("ToCSVDir returns no error though file %d of %d cannot be written (%s)", blocked, len(good), how)
		}
		c.Risky()
		err = f.df.ToCSVFiles(o, paths...)
		if (err != nil) != (bad > 0) {
			c.Bad("ToCSVFiles returns the error %v though %d of %d files cannot be written", err, bad, k)
		}
		if _, err := f.df.ToCSVDir(o, filepath.Join(dir, "missing", "x")); err == nil {
			c.Bad("ToCSVDir into a directory that does not exist returns no error")
		}
		c.NT(k >= 2)
	})
}

// --------------------------------------------------------- C15 round trips

func TestC15_RoundTrip(t *testing.T) {
	Prop(t, "a dataframe whose columns are recognisable as their type is written to one CSV and read back; non-trivial: at least 2 rows and 2 types", 1000, func(c *Case) {
		names := plainNames[:c.Int("cols", 1, 6)]
		if c.Chance("odd names", 3) {
			start := c.Int("start", 0, len(oddNames)-1)
			var odd []string
			for i := range names {
				if n := oddNames[(start+i)%len(oddNames)]; n != "" || len(names) > 1 {
					odd = append(odd, n)
				}
			}
			if len(odd) > 0 {
				names = odd
			}
		}
		n := genRows(c, 1, 600)
		marker := "<none>"
		tab := genTyped(c, n, names, marker)
		// only one cell has to tell the type: the others can be anything
		for _, name := range tab.all() {
			col := tab.cols[name]
			s := c.source(n)
			keep := c.Int("telling row", 0, n-1)
			if n > 1 && c.Bool("free cells") {
				for i := range col.vals {
					if i == keep {
						continue
					}
					switch col.kind {
					case 'f':
						col.vals[i] = genCell(s, 'f', &tabOpts{})
					case 'i':
						col.vals[i] = genCell(s, 'i', &tabOpts{})
					case 's':
						col.vals[i] = genCell(s, 's', &tabOpts{})
					}
				}
			}
			if col.kind == 's' && col.vals[keep] == nil {
				col.vals[keep] = "word"
			}
			if col.kind == 'i' && (col.vals[keep] == 0 || col.vals[keep] == 1) {
				col.vals[keep] = 7
			}
			if len(tab.cols) == 1 {
				for i, v := range col.vals {
					if v == "" {
						col.vals[i] = "empty" // encoding/csv does not write empty records
					}
				}
			}
		}
		c.D("table %s", tab)
		df := build(c, tab)
		if c.Bool("view") {
			idx := genIndices(c, n, false)
			c.D("IndexView(%s)", showIdx(idx))
			whole := len(idx) == n
			if whole {
				df, tab = df.IndexView(idx), tab.rows(idx)
			}
		}
		o := dataframe.CSVWritingSpec{StringMissingMarker: marker, MaintainOrder: true, Comma: pick(c, "comma", 0, ';', '\t'), UseCRLF: c.Bool("crlf")}
		var buf bytes.Buffer
		if err := df.To1CSV(&buf, o); err != nil {
			c.Bad("To1CSV: %v", err)
		}
		c.Risky()
		raw, err := dataframe.FromCSV(&buf, dataframe.CSVReadingSpec{MaxCPU: genCPU(c), MissingValues: []string{marker}, Comma: o.Comma})
		if err != nil {
			c.Bad("FromCSV: %v", err)
		}
		c.expect("the dataframe read back", raw.ToDataFrame(), tab)
		c.NT(tab.n >= 2 && len(tab.cols) >= 2)
	})
}

func TestC15_DirRoundTrip(t *testing.T) {
	Prop(t, "a dataframe is written with ToCSVDir and read back with FromCSVFilePattern; non-trivial: several files", 200, func(c *Case) {
		names := plainNames[:c.Int("cols", 1, 5)]
		n := genRows(c, 1, 300)
		marker := "<none>"
		tab := genTyped(c, n, names, marker)
		for _, name := range tab.names("s") {
			// each file has to be recognisable
			for i, v := range tab.cols[name].vals {
				if v == nil && c.Chance("no nil", 2) {
					tab.cols[name].vals[i] = "word"
				}
			}
			only := true
			for _, v := range tab.cols[name].vals {
				only = only && v != nil
			}
			if !only {
				for i, v := range tab.cols[name].vals {
					if v == nil {
						tab.cols[name].vals[i] = "nil"
					}
				}
			}
		}
		c.D("table %s", tab)
		df := build(c, tab)
		tt := tab
		if c.Bool("view") {
			idx := genIndices(c, n, true)
			c.D("IndexView(%s)", showIdx(idx))
			df, tt = df.IndexView(idx), tab.rows(idx)
		}
		df.SetMaxCPU(pick(c, "cpu w", 1, 2, 3, 4, 8, -1))
		dir := scratch(c)
		defer os.RemoveAll(dir)
		o := dataframe.CSVWritingSpec{StringMissingMarker: marker, MaintainOrder: c.Bool("order"), MinRowsPerFile: pick(c, "min", 1, 2, 5, 20, 0)}
		c.D("%+v with %d CPUs", o, df.ActualMaxCPU())
		c.Risky()
		paths, err := df.ToCSVDir(o, filepath.Join(dir, "p"))
		if err != nil {
			c.Bad("ToCSVDir: %v", err)
		}
		if c.Chance("written twice", 4) {
			// the files exist already and are longer
			for _, p := range paths {
				b, _ := os.ReadFile(p)
				os.WriteFile(p, append(append(b, b...), "\n1,\"2\n"...), 0o600)
			}
			c.D("written once more over longer files")
			again, err := df.ToCSVDir(o, filepath.Join(dir, "p"))
			if err != nil {
				c.Bad("ToCSVDir over existing files: %v", err)
			}
			if !sameNames(again, paths) {
				c.Bad("ToCSVDir writes the same dataframe to %q and to %q", paths, again)
			}
		}
		cpu := pick(c, "cpu r", 1, 2, 3, 4, 5, 8, -1)
		raw, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "p*.csv"), dataframe.CSVReadingSpec{MaxCPU: cpu, MissingValues: []string{marker}})
		if err != nil {
			c.Bad("FromCSVFilePattern: %v", err)
		}
		got, err := observe(raw.ToDataFrame())
		if err != nil {
			c.Bad("the dataframe read back: %v", err)
		}
		if tt.n == 0 {
			if got.n != 0 || len(got.cols) != len(tt.cols) {
				c.Bad("an empty dataframe is read back as %s", got)
			}
			return
		}
		if d := diffAnyOrder(got, tt); d != "" {
			c.Bad("the dataframe read back: %s", d)
		}
		c.L("%d files", len(paths))
		c.NT(len(paths) >= 2 && tt.n >= 2)
	})
}
