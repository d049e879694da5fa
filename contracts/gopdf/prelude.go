package gopdf

// Ghost vocabulary of the contracts. The verifier gives these functions their
// logical meaning; the bodies here are what they do when a contract is run as
// ordinary Go during a replay.

import (
	"bytes"
	"compress/zlib"
	"crypto/md5"
	"crypto/rc4"
	"io"
	"math"
	"os"
	"reflect"
	"strconv"
)

type v_skip struct{}
type v_fail struct{ name string }

var v_failures []string
var v_nopanicOn bool

func v_requires(b bool) {
	if !b {
		panic(v_skip{})
	}
}
func v_assume(b bool) {
	if !b {
		panic(v_skip{})
	}
}
func v_ensures(name string, b bool) {
	if !b {
		v_failures = append(v_failures, name)
	}
}
func v_assert(name string, b bool) { v_ensures(name, b) }
func v_inv(b bool)                 {}
func v_decr(n int)                 {}
func v_proof(f func())             {}
func v_nopanic()                   { v_nopanicOn = true }
func v_modifies(p ...interface{})  {}
func v_modOut(w io.Writer)         {}
func v_modAll(prefix string)       {}
func v_freshResult(i int)          {}
func v_expr(b func() bool) bool    { return b() }

func v_lazy(a bool, b func() bool) bool { return !a || b() }

func v_implies(a, b bool) bool            { return !a || b }
func v_iff(a, b bool) bool                { return a == b }
func v_sameRef(a, b interface{}) bool     { return v_isFresh(a) && v_isFresh(b) }
func v_isFresh(p interface{}) bool        { return true }
func v_loopCount() int                    { return 0 }
func v_entryStr(f func() string) string   { return f() }
func v_entryInt(f func() int) int         { return f() }
func v_entryF64(f func() float64) float64 { return f() }
func v_entryBool(f func() bool) bool      { return f() }

// v_recorder is the writer replays hand to the code: it records what was
// written and can refuse writes after a given number of bytes.
type v_recorder struct {
	data   []byte
	limit  int // <0: unlimited
	failed bool
}

type v_writeError struct{}

func (v_writeError) Error() string { return "v_recorder: write refused" }

func (r *v_recorder) Write(p []byte) (int, error) {
	if r.limit >= 0 && len(r.data)+len(p) > r.limit {
		n := r.limit - len(r.data)
		r.data = append(r.data, p[:n]...)
		r.failed = true
		return n, v_writeError{}
	}
	r.data = append(r.data, p...)
	return len(p), nil
}

func v_out(w io.Writer) string {
	switch a := w.(type) {
	case *v_recorder:
		return string(a.data)
	case *bytes.Buffer:
		return a.String()
	case *Buff:
		return string(a.datas)
	case *countingWriter:
		return v_out(a.writer)
	}
	return ""
}

func v_failed(w io.Writer) bool {
	switch a := w.(type) {
	case *v_recorder:
		return a.failed
	case *countingWriter:
		return v_failed(a.writer)
	}
	return false
}

func v_forall(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func v_exists(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

func v_forallInt(f func(k int) bool) bool { return v_forall(-2, 200, f) }

func v_forallRune(f func(r rune) bool) bool {
	for _, r := range []rune{0, 1, 9, 10, 32, 45, 48, 65, 66, 97, 98, 120, 122, 0xe9, 0x0e01, 0x627, 0x6df, 0x20ac, 0x4e2d, 0xfb01, 0xffff, 0x1f600} {
		if !f(r) {
			return false
		}
	}
	for r := rune(33); r < 127; r++ {
		if !f(r) {
			return false
		}
	}
	return true
}

func v_forallUint(f func(r uint) bool) bool {
	for r := uint(0); r < 3000; r++ {
		if !f(r) {
			return false
		}
	}
	return true
}

func v_forallStr(f func(s string) bool) bool {
	for _, s := range []string{"", "a", "R", "X", "Liberation", "\\"} {
		if !f(s) {
			return false
		}
	}
	return true
}

// v_callStr: the text the last call of the named function returned; for the
// arguments of lemmas only.
func v_callStr(name string) string { return "" }

// v_runeOff: the byte offset of the k-th character.
func v_runeOff(s string, k int) int {
	n := 0
	for i := range s {
		if n == k {
			return i
		}
		n++
	}
	return len(s)
}

func v_md5(s string) string {
	h := md5.Sum([]byte(s))
	return string(h[:])
}

func v_rc4(key, data string) string {
	c, err := rc4.NewCipher([]byte(key))
	if err != nil {
		panic(v_skip{})
	}
	out := make([]byte, len(data))
	c.XORKeyStream(out, []byte(data))
	return string(out)
}

func v_deflate(level int, data string) string {
	var b bytes.Buffer
	w, err := zlib.NewWriterLevel(&b, level)
	if err != nil {
		panic(v_skip{})
	}
	w.Write([]byte(data))
	w.Close()
	return b.String()
}

func v_fileContent(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(v_skip{})
	}
	return string(b)
}

var _ = reflect.TypeOf

// v_extends: out starts with before. v_some: any text.
func v_extends(out, before string) bool {
	return len(out) >= len(before) && out[:len(before)] == before
}
func v_some(tag int) string { panic(v_skip{}) }

func v_snapBytes(s []byte) []byte        { return append([]byte{}, s...) }
func v_snapStrings(s []string) []string  { return append([]string{}, s...) }
func v_snapInts(s []int) []int           { return append([]int{}, s...) }
func v_snapPoints(s []Point) []Point     { return append([]Point{}, s...) }
func v_snapFloats(s []float64) []float64 { return append([]float64{}, s...) }
func v_snapObjs(s []IObj) []IObj         { return append([]IObj{}, s...) }

func ghostOut_Buff(b *Buff) string                      { return string(b.datas) }
func ghostOut_countingWriter(c *countingWriter) string  { return v_out(c.writer) }
func ghostFailed_countingWriter(c *countingWriter) bool { return v_failed(c.writer) }

// v_eqText: equality of texts; when run, numbers in them may differ by the
// rounding of machine numbers in the last printed digit.
func v_eqText(a, b string) bool {
	if a == b {
		return true
	}
	i, j := 0, 0
	num := func(s string, k int) (int, float64, int) {
		e, frac, dot := k, 0, false
		for e < len(s) && (s[e] >= '0' && s[e] <= '9' || s[e] == '.' && !dot || e == k && s[e] == '-') {
			if s[e] == '.' {
				dot = true
			} else if dot {
				frac++
			}
			e++
		}
		f, err := strconv.ParseFloat(s[k:e], 64)
		if err != nil {
			return k, 0, 0
		}
		return e, f, frac
	}
	for i < len(a) && j < len(b) {
		e, x, p := num(a, i)
		f, y, q := num(b, j)
		if e > i && f > j {
			d := x - y
			if d < 0 {
				d = -d
			}
			tol := 0.0
			if p > 0 {
				tol = 1.01 * math.Pow(10, -float64(p))
			}
			if p != q || d > tol {
				return false
			}
			i, j = e, f
			continue
		}
		if a[i] != b[j] {
			return false
		}
		i++
		j++
	}
	return i == len(a) && j == len(b)
}

// v_eqF: equality of reals; with machine numbers, up to rounding.
func v_eqF(a, b float64) bool {
	if a == b {
		return true
	}
	d := a - b
	if d < 0 {
		d = -d
	}
	m := 1.0
	if a > m || -a > m {
		m = a
		if m < 0 {
			m = -m
		}
	}
	return d <= 1e-7*m
}

// v_written: the text the object with this number wrote. A contract may say a
// write appended it (v_appended); each number is written once per document.
func v_written(id int) string { return v_writtenLog[id] }
func v_appended(out, before string, id int) bool {
	if len(out) < len(before) || out[:len(before)] != before {
		return false
	}
	v_writtenLog[id] = out[len(before):]
	return true
}

var v_writtenLog = map[int]string{}

func v_snapTransparencies(m map[string]Transparency) map[string]Transparency {
	c := map[string]Transparency{}
	for k, v := range m {
		c[k] = v
	}
	return c
}
func v_snapExtGS(s []ExtGS) []ExtGS                 { return append([]ExtGS{}, s...) }
func v_snapItems(s []ICacheContent) []ICacheContent { return append([]ICacheContent{}, s...) }
