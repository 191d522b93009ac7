package tricorder_test

import (
	"fmt"
	"html"
	"math"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func page(v *V, path, query string) string {
	rec := httptest.NewRecorder()
	r := httptest.NewRequest("GET", "/metrics", nil)
	r.URL = &url.URL{Path: "/metrics" + path, RawQuery: query}
	if p, what := panics(func() { http.DefaultServeMux.ServeHTTP(rec, r) }); p {
		v.fail("GET /metrics%s?%s panics: %v", path, query, what)
	}
	if rec.Code != 200 {
		v.fail("GET /metrics%s?%s: code %d", path, query, rec.Code)
	}
	return rec.Body.String()
}

// the rendered value of a single metric on its HTML page
func shown(v *V, path string) string {
	b := page(v, path, "")
	i := strings.Index(b, path+" ")
	if i < 0 {
		v.fail("GET /metrics%s: the metric is not on its page: %q", path, b)
	}
	b = b[i+len(path)+1:]
	j := strings.Index(b, " <span")
	if j < 0 {
		v.fail("GET /metrics%s: no end of value: %q", path, b)
	}
	return html.UnescapeString(b[:j])
}

func listed(v *V, path string) []string {
	b := page(v, path, "")
	var r []string
	for _, p := range strings.Split(b, "<li>")[1:] {
		j := strings.Index(p, "</li>")
		if j < 0 {
			v.fail("GET /metrics%s: the page ends in the middle of the list: %q", path, b)
		}
		r = append(r, html.UnescapeString(p[:j]))
	}
	return r
}

func commas(s string) string {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	out := ""
	for len(s) > 3 {
		out = "," + s[len(s)-3:] + out
		s = s[:len(s)-3]
	}
	out = s + out
	if neg {
		out = "-" + out
	}
	return out
}

var c19Suffix = map[bool][]string{
	false: {" thousand", " million", " billion", " trillion", "K trillion", "M trillion"},
	true:  {" KiB", " MiB", " GiB", " TiB", " PiB", " EiB"},
}

// wrongHtml says what is wrong with the rendering of integer x.
func wrongHtml(x *big.Int, u units.Unit, got string) string {
	if u == units.None {
		if want := commas(x.String()); got != want {
			return "want " + want
		}
		return ""
	}
	bytes := u == units.Byte || u == units.BytePerSecond
	radix := big.NewInt(1000)
	if bytes {
		radix = big.NewInt(1024)
	}
	if new(big.Int).Abs(x).Cmp(radix) < 0 {
		if got != x.String() {
			return "want " + x.String()
		}
		return ""
	}
	for k, s := range c19Suffix[bytes] {
		if u == units.BytePerSecond {
			s += "/s"
		}
		if !strings.HasSuffix(got, s) {
			continue
		}
		num := strings.TrimSuffix(got, s)
		n, ok := new(big.Rat).SetString(num)
		if !ok || strings.ContainsAny(num, "eE/+ _") {
			continue
		}
		places := 0
		if i := strings.IndexByte(num, '.'); i >= 0 {
			places = len(num) - i - 1
		}
		pow := new(big.Rat).SetInt(new(big.Int).Exp(radix, big.NewInt(int64(k+1)), nil))
		y := new(big.Rat).Quo(new(big.Rat).SetInt(x), pow)
		diff := new(big.Rat).Sub(n, y)
		diff.Abs(diff)
		half := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Mul(big.NewInt(2), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(places)), nil)))
		slack := new(big.Rat).Mul(new(big.Rat).Abs(y), big.NewRat(1, 1<<48))
		if diff.Cmp(half.Add(half, slack)) > 0 {
			return "the number shown is not the value over the power named"
		}
		digits := strings.TrimLeft(strings.Replace(strings.TrimPrefix(num, "-"), ".", "", 1), "0")
		if len(digits) < 3 {
			return "fewer than three significant digits"
		}
		a := new(big.Rat).Abs(n)
		if a.Cmp(big.NewRat(1, 1)) < 0 || a.Cmp(new(big.Rat).SetInt(radix)) > 0 {
			return "the wrong power"
		}
		return ""
	}
	return "no number followed by the name of a power"
}

var c19Units = []units.Unit{units.None, units.Byte, units.BytePerSecond, units.Second, units.Millisecond, units.Celsius}

func (v *V) anInt() *big.Int {
	x := new(big.Int)
	switch v.R.Intn(4) {
	case 0:
		x.Exp(big.NewInt(10), big.NewInt(int64(v.R.Intn(20))), nil)
		x.Add(x, big.NewInt(int64(v.R.Intn(5)-2)))
	case 1:
		x.Lsh(big.NewInt(1), uint(v.R.Intn(65)))
		x.Add(x, big.NewInt(int64(v.R.Intn(5)-2)))
	case 2:
		// near a change of the number of digits shown
		r := []int64{1000, 1024}[v.R.Intn(2)]
		x.Exp(big.NewInt(r), big.NewInt(int64(v.R.Intn(7))), nil)
		x.Mul(x, big.NewInt([]int64{9995, 9950, 9994, 99950, 99949, 99500, 999499, 999500, 999999}[v.R.Intn(9)]))
		x.Quo(x, big.NewInt(1000))
		x.Add(x, big.NewInt(int64(v.R.Intn(5)-2)))
	default:
		x.SetUint64(v.R.Uint64() >> uint(v.R.Intn(64)))
	}
	if v.R.Intn(2) == 0 {
		x.Neg(x)
	}
	return x
}

func TestVerif(t *testing.T) {
	v := newV(t)
	type met struct {
		path string
		p    reflect.Value // of the variable
		u    units.Unit
		list *tricorder.List
	}
	var mets []met
	for _, z := range []interface{}{new(int8), new(int16), new(int32), new(int64), new(uint8), new(uint16), new(uint32), new(uint64), new(float32), new(float64), new(string), new(bool), new(int), new(uint)} {
		for i, u := range c19Units {
			p := reflect.New(reflect.TypeOf(z).Elem())
			m := met{path: fmt.Sprintf("/c19/%s/%d", p.Elem().Type(), i), p: p, u: u}
			if err := tricorder.RegisterMetric(m.path, p.Interface(), u, "c19"); err != nil {
				v.fail("RegisterMetric(%s): %v", m.path, err)
			}
			m.list = tricorder.NewList(reflect.MakeSlice(reflect.SliceOf(p.Elem().Type()), 0, 0).Interface(), tricorder.MutableSlice)
			if err := tricorder.RegisterMetric(m.path+"l", m.list, u, "c19"); err != nil {
				v.fail("RegisterMetric(%s): %v", m.path+"l", err)
			}
			mets = append(mets, m)
		}
	}
	set := func(e reflect.Value) {
		switch e.Kind() {
		case reflect.Bool:
			e.SetBool(v.R.Intn(2) == 0)
		case reflect.String:
			e.SetString([]string{"", "a", "a b", "1,000", `"`, "é", "\\n"}[v.R.Intn(7)])
		case reflect.Float32, reflect.Float64:
			f := math.Float64frombits(v.R.Uint64())
			if v.R.Intn(2) == 0 {
				f = float64(v.R.Intn(2000000)-1000000) / []float64{1, 3, 7, 10, 1000}[v.R.Intn(5)]
			}
			if math.IsNaN(f) || math.IsInf(f, 0) || e.Kind() == reflect.Float32 && math.IsInf(float64(float32(f)), 0) {
				f = 0.1
			}
			e.SetFloat(f)
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			for i := 0; i < 100; i++ {
				if x := v.anInt(); x.IsInt64() && !e.OverflowInt(x.Int64()) {
					e.SetInt(x.Int64())
					return
				}
			}
			e.SetInt(int64(v.R.Intn(256) - 128))
		default:
			for i := 0; i < 100; i++ {
				if x := v.anInt(); x.IsUint64() && !e.OverflowUint(x.Uint64()) {
					e.SetUint(x.Uint64())
					return
				}
			}
			e.SetUint(uint64(v.R.Intn(256)))
		}
	}
	// wrongText says what is wrong with the text of e
	wrongText := func(e reflect.Value, got string) string {
		switch e.Kind() {
		case reflect.Float32, reflect.Float64:
			bits := e.Type().Bits()
			f, err := strconv.ParseFloat(got, bits)
			if err != nil || f != e.Float() || strings.ContainsAny(got, "eExX") {
				return "want " + strconv.FormatFloat(e.Float(), 'f', -1, bits)
			}
		case reflect.String:
			if want := `"` + e.String() + `"`; got != want {
				return "want " + want
			}
		default:
			if want := fmt.Sprint(e.Interface()); got != want {
				return "want " + want
			}
		}
		return ""
	}
	wrongPage := func(e reflect.Value, u units.Unit, got string) string {
		switch e.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return wrongHtml(big.NewInt(e.Int()), u, got)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return wrongHtml(new(big.Int).SetUint64(e.Uint()), u, got)
		}
		return wrongText(e, got)
	}
	for i := 0; v.more(i, 1000000); i++ {
		m := mets[v.R.Intn(len(mets))]
		e := m.p.Elem()
		set(e)
		v.sample("%s %v with unit %q", e.Type(), e.Interface(), m.u)
		got := strings.TrimSuffix(page(v, m.path, "format=text"), "\n")
		if w := wrongText(e, got); w != "" {
			v.fail("%s %v with unit %q is %q in text: %s", e.Type(), e.Interface(), m.u, got, w)
		}
		got = shown(v, m.path)
		if w := wrongPage(e, m.u, got); w != "" {
			v.fail("%s %v with unit %q is %q in HTML: %s", e.Type(), e.Interface(), m.u, got, w)
		}
		if v.R.Intn(8) == 0 {
			n := v.R.Intn(4)
			s := reflect.MakeSlice(reflect.SliceOf(e.Type()), n, n)
			for j := 0; j < n; j++ {
				set(s.Index(j))
			}
			m.list.Change(s.Interface(), tricorder.MutableSlice)
			got := listed(v, m.path+"l")
			if len(got) != n {
				v.fail("list %v with unit %q has %d elements in HTML: %q", s.Interface(), m.u, len(got), got)
			}
			for j := range got {
				if w := wrongPage(s.Index(j), m.u, got[j]); w != "" {
					v.fail("element %d of the list %v with unit %q is %q in HTML: %s", j, s.Interface(), m.u, got[j], w)
				}
			}
			if e.Kind() != reflect.String && n > 0 {
				txt := strings.Split(strings.TrimSuffix(page(v, m.path+"l", "format=text"), "\n"), "|")
				if len(txt) != n {
					v.fail("list %v has %d elements in text: %q", s.Interface(), len(txt), txt)
				}
				for j := range txt {
					if w := wrongText(s.Index(j), txt[j]); w != "" {
						v.fail("element %d of the list %v is %q in text: %s", j, s.Interface(), txt[j], w)
					}
				}
			}
		}
	}
	v.done()
}
