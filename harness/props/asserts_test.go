package props

import (
	"fmt"
	"io"
	"math"
	"sort"
	"testing"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/utils"
)

// ------------------------------------------------------------ C36 assertions

func nearlyEqual(a, b float64) (equal, clear bool) {
	if a != a || b != b {
		return a != a && b != b, true
	}
	if a == b {
		return true, true
	}
	d := math.Abs(a - b) // may be infinite
	return d <= 0.01, d < 0.0099 || d > 0.0101
}

func TestC36_Asserts(t *testing.T) {
	Prop(t, "one of the Assert helpers compares random values or slices, equal, nearly equal or different; what it returns and whether it fails the test must be its definition; half of the cases must be failures; non-trivial: always", 2500, func(c *Case) {
		kind := pick(c, "helper", "string", "not string", "int", "not int", "float", "float", "true", "false", "error", "strings", "set", "ints", "not ints", "floats", "floats", "bools")
		str := func() string { return strPool[c.Int("string", 0, len(strPool)-1)] }
		num := func() int { return intPool[c.Int("int", 0, len(intPool)-1)] }
		fl := func() float64 {
			pool := append(append([]float64{math.NaN(), 1e6, 100}, floatPool...), wildFloats...)
			return pool[c.Int("float", 0, len(pool)-1)]
		}
		// another float that may be near
		mate := func(a float64) float64 {
			switch c.Int("mate", 0, 4) {
			case 0:
				return fl()
			case 1:
				return a + pick(c, "by", 0.009, -0.009, 0.005, -0.001, 1e-9)
			case 2:
				return a + pick(c, "far", 0.011, -0.011, 0.02, -0.1, 1)
			case 3:
				return -a
			}
			return a
		}
		n := c.Int("length", 0, 6)
		if c.Chance("longer", 8) {
			n = c.Int("long", 7, 70)
		}
		same := c.Bool("same")
		var want, unclear bool
		var run func(t *testing.T) bool
		edit := func(set func(i int), grow func()) {
			if same {
				return
			}
			if n == 0 || c.Chance("length differs", 4) {
				grow()
			} else {
				set(c.Int("at", 0, n-1))
			}
		}
		switch kind {
		case "string", "not string":
			a, b := str(), str()
			if same {
				b = a
			}
			want = (a == b) == (kind == "string")
			c.D("%s %q %q", kind, a, b)
			run = func(t *testing.T) bool {
				if kind == "string" {
					return utils.AssertStringEquals("x", a, b, t)
				}
				return utils.AssertStringNotEquals("x", a, b, t)
			}
		case "int", "not int":
			a, b := num(), num()
			if same {
				b = a
			}
			want = (a == b) == (kind == "int")
			c.D("%s %d %d", kind, a, b)
			run = func(t *testing.T) bool {
				if kind == "int" {
					return utils.AssertIntEquals("x", a, b, t)
				}
				return utils.AssertIntNotEquals("x", a, b, t)
			}
		case "float":
			a := fl()
			b := mate(a)
			ok, clear := nearlyEqual(a, b)
			want, unclear = ok, !clear
			c.D("floats %v %v", a, b)
			run = func(t *testing.T) bool { return utils.AssertFloatEquals("x", a, b, t) }
		case "true", "false":
			want = same == (kind == "true")
			msg := str()
			c.D("%s %v %q", kind, same, msg)
			run = func(t *testing.T) bool {
				if kind == "true" {
					return utils.AssertTrue(msg, same, t)
				}
				return utils.AssertFalse(msg, same, t)
			}
		case "error":
			var err error
			if !same {
				err = pick(c, "error", io.EOF, fmt.Errorf("100%%d %s", str()))
			}
			want = same
			c.D("error %v", err)
			run = func(t *testing.T) bool { return utils.AssertNoError(err, t) }
		case "strings", "set":
			a := []string{}
			for i := 0; i < n; i++ {
				a = append(a, fmt.Sprint(str(), i)) // no repetitions
			}
			if kind == "set" && n > 1 && c.Chance("repetition", 3) {
				// an element is missing in the other list, which repeats another one
				b := append([]string{}, a...)
				i := c.Int("at", 0, n-1)
				b[i] = b[(i+1)%n]
				if c.Bool("swap") {
					a, b = b, a
				}
				c.D("%s %q %q", kind, a, b)
				run = func(t *testing.T) bool { return utils.AssertStringSliceEquals("x", a, b, false, t) }
				break
			}
			b := append([]string{}, a...)
			edit(func(i int) { b[i] += "!" }, func() { b = append(b, "more") })
			want = same
			if c.Bool("shuffle") && n > 1 {
				sort.Sort(sort.Reverse(sort.StringSlice(b)))
				want = same && (kind == "set" || fmt.Sprintf("%q", a) == fmt.Sprintf("%q", b))
			}
			if c.Bool("swap") {
				a, b = b, a
			}
			c.D("%s %q %q", kind, a, b)
			run = func(t *testing.T) bool { return utils.AssertStringSliceEquals("x", a, b, kind == "strings", t) }
		case "ints", "not ints":
			a := []int{}
			for i := 0; i < n; i++ {
				a = append(a, num())
			}
			b := append(make([]int, 0, n+c.Int("capacity", 0, 3)), a...)
			edit(func(i int) { b[i]++ }, func() { b = append(b, 0) })
			want = same == (kind == "ints")
			if c.Bool("swap") {
				a, b = b, a
			}
			c.D("%s %v %v", kind, a, b)
			run = func(t *testing.T) bool {
				if kind == "ints" {
					return utils.AssertIntSliceEquals("x", a, b, t)
				}
				return utils.AssertIntSliceNotEquals("x", a, b, t)
			}
		case "bools":
			a := []bool{}
			for i := 0; i < n; i++ {
				a = append(a, c.Bool("value"))
			}
			b := append([]bool{}, a...)
			edit(func(i int) { b[i] = !b[i] }, func() { b = append(b, false) })
			want = same
			if c.Bool("swap") {
				a, b = b, a
			}
			c.D("bools %v %v", a, b)
			run = func(t *testing.T) bool { return utils.AssertBoolSliceEquals("x", a, b, t) }
		case "floats":
			a, b := []float64{}, []float64{}
			want = true
			for i := 0; i < n; i++ {
				x := fl()
				y := x
				if !same {
					y = mate(x)
				}
				a, b = append(a, x), append(b, y)
				ok, clear := nearlyEqual(x, y)
				want, unclear = want && ok, unclear || !clear
			}
			if !same && c.Chance("length differs", 4) {
				b = append(b, 0)
				want = false
			}
			if c.Bool("swap") {
				a, b = b, a
			}
			c.D("floats %v %v", a, b)
			run = func(t *testing.T) bool { return utils.AssertFloatSliceEquals("x", a, b, t) }
		}
		c.NT(true)
		c.L(kind)
		if unclear {
			return // on the edge of the tolerance
		}
		dummy := new(testing.T)
		got := run(dummy)
		if got != want || dummy.Failed() == want {
			c.Bad("the helper returns %v and fails the test: %v; the assertion holds: %v", got, dummy.Failed(), want)
		}
	})
}

func TestC36_Consistency(t *testing.T) {
	Prop(t, "CheckConsistency on dataframes and raw data in any state, some of them with columns of unequal lengths or an unmarked column of strings; non-trivial: at least 2 columns with rows", 500, func(c *Case) {
		names := plainNames[:c.Int("columns", 1, 6)]
		tab := newTable(genRows(c, 1, 40))
		for _, name := range names {
			k := Kind(pick(c, "kind", []byte("fibso")...))
			tab.set(name, k, genVals(c, k, tab.n, &tabOpts{}))
		}
		damage := pick(c, "damage", "none", "none", "short", "long", "empty", "unmarked", "unmarked after missing", "unmarked after others", "dangling mark")
		name := names[c.Int("which", 0, len(names)-1)]
		kind := tab.cols[name].kind
		if len(names) == 1 && (damage == "short" || damage == "long" || damage == "empty") {
			damage = "none"
		}
		c.D("%s, damage: %s of %q", tab, damage, name)
		bt := tab.clone()
		switch damage {
		case "short":
			bt.cols[name].vals = bt.cols[name].vals[:tab.n-1]
		case "empty":
			bt.cols[name].vals = nil
		case "long":
			bt.cols[name].vals = append(bt.cols[name].vals, bt.cols[name].vals[0])
		case "unmarked", "unmarked after missing", "unmarked after others":
			vals := make([]interface{}, tab.n)
			if damage == "unmarked after others" {
				for i := range vals {
					vals[i] = pick(c, "other", []interface{}{nil, 3, 1.5, []string{"x"}, struct{}{}}...)
				}
				vals[c.Int("where", 0, tab.n-1)] = "text"
			} else if damage == "unmarked" {
				for i := range vals {
					vals[i] = "text"
				}
			} else {
				vals[tab.n-1] = "text"
			}
			kind = 'o'
			bt.set(name, kind, vals)
		}
		b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
		for _, n := range bt.all() {
			b = setRaw(b, bt.cols[n].kind, n, bt.cols[n].vals)
			if bt.cols[n].kind == 's' {
				b.MarkAsString(n)
			}
		}
		if damage == "dangling mark" {
			mark := pick(c, "mark", append(bt.names("fib"), "no such column")...)
			c.D("%q is marked as strings", mark)
			b.MarkAsString(mark)
		}
		dummy := new(testing.T)
		got := b.RawData.CheckConsistency(dummy)
		want := damage == "none"
		if got != want || dummy.Failed() == want {
			c.Bad("CheckConsistency returns %v and fails the test: %v; the damage is: %s", got, dummy.Failed(), damage)
		}
		c.NT(len(names) >= 2)
		c.L(damage)
		if damage != "none" {
			return
		}
		// whatever is derived from a sound dataframe is sound
		df, _ := derive(c, build(c, tab), tab, viewOpts{repeat: true, cols: true})
		switch c.Int("then", 0, 4) {
		case 0:
			df = df.Copy()
		case 1:
			df = df.DetachedView()
		case 2:
			if tt := newNamesLeft(df); len(tt) > 1 {
				df.Drop(tt[0])
			}
		case 3:
			df.AllocStrings("new")
			df.AllocFloats("new2")
		}
		dummy = new(testing.T)
		if !df.CheckConsistency(dummy) || dummy.Failed() {
			c.Bad("CheckConsistency complains about a sound dataframe")
		}
	})
}

func newNamesLeft(df *dataframe.DataFrame) []string { return sortedCopy(df.Header().NameList()) }
