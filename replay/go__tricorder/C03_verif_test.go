package tricorder_test

//verif:add go/tricorder/zz_tree_common_test.go tree_common.go.txt

import (
	"encoding/json"
	"errors"
	"fmt"
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"log"
	"math"
	"net"
	"net/http"
	"net/http/httptest"
	"net/rpc"
	"net/url"
	"os"
	"strings"
	"testing"
)

// failing is a response writer that fails after a number of writes.
type failing struct {
	h      http.Header
	left   int
	text   strings.Builder
	failed int
}

func (f *failing) Header() http.Header { return f.h }
func (f *failing) WriteHeader(int)     {}
func (f *failing) Write(p []byte) (int, error) {
	if f.left <= 0 {
		f.failed++
		return 0, errors.New("gone")
	}
	f.left--
	return f.text.Write(p)
}

func paths(l messages.MetricList) (out []string) {
	for _, m := range l {
		if m == nil {
			out = append(out, "nil")
		} else {
			out = append(out, m.Path)
		}
	}
	return
}

func textOf(path string, w http.ResponseWriter) {
	r := httptest.NewRequest("GET", "/metrics/?format=text", nil)
	r.URL = &url.URL{Path: "/metrics" + path, RawQuery: "format=text"}
	http.DefaultServeMux.ServeHTTP(w, r)
}

func TestVerif(t *testing.T) {
	v := newV(t)
	log.SetOutput(os.Stdout)
	c1, c2 := net.Pipe()
	go rpc.ServeConn(c1)
	client := rpc.NewClient(c2)
	specials := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, 1, math.MaxFloat64, math.Copysign(0, -1), 5e-324}
	for v.more(150, 40000) {
		tr := newTree(v, 2+v.R.Intn(len(treeNames)-1), false)
		for k := 0; k < 6+v.R.Intn(30) && !tr.aborted; k++ {
			// What registering and unregistering do is not judged here.
			var bad string
			switch v.R.Intn(8) {
			case 0:
				bad = tr.unregister()
			case 1, 2:
				bad = tr.registerDir()
			default:
				bad = tr.register()
			}
			if bad != "" {
				tr.aborted = true
			}
		}
		for _, w := range tr.top.list() {
			l := tricorder.ReadMyMetrics(w.path)
			if len(l) > 1 || (len(l) == 0 && !hidden(w.met.read())) {
				tr.aborted = true
			}
		}
		for _, d := range tr.top.dirs() {
			if s, err := tricorder.GetDirectory(d.abs()); err != nil || s != d.spec {
				tr.aborted = true
			}
		}
		for round := 0; round < 3 && !tr.aborted; round++ {
			for _, p := range tr.floats {
				if v.R.Intn(2) == 0 {
					*p = specials[v.R.Intn(len(specials))]
				}
			}
			for _, p := range tr.singles {
				if v.R.Intn(2) == 0 {
					*p = float32(specials[v.R.Intn(5)])
				}
			}
			for _, d := range tr.top.dirs() {
				var want []string
				for _, w := range d.list() {
					if !hidden(w.met.read()) {
						want = append(want, w.path)
					}
				}
				var got messages.MetricList
				v.within(fmt.Sprint(tr.hist), func() { got = tricorder.ReadMyMetrics(d.abs()) })
				if fmt.Sprint(paths(got)) != fmt.Sprint(want) {
					v.fail("%v: listing of %s is %q, want %q", tr.hist, d.abs(), paths(got), want)
				}
				got = nil
				if err := client.Call("MetricsServer.ListMetrics", d.abs(), &got); err != nil || fmt.Sprint(paths(got)) != fmt.Sprint(want) {
					v.fail("%v: RPC listing of %s is %q, want %q", tr.hist, d.abs(), paths(got), want)
				}
				if v.R.Intn(3) == 0 {
					rec := httptest.NewRecorder()
					r := httptest.NewRequest("GET", "/metricsapi/", nil)
					r.URL = &url.URL{Path: "/metricsapi" + d.abs()}
					http.DefaultServeMux.ServeHTTP(rec, r)
					if rec.Code == 200 {
						var js []struct{ Path string }
						if err := json.Unmarshal(rec.Body.Bytes(), &js); err != nil {
							v.fail("%v: REST listing of %s: %v", tr.hist, d.abs(), err)
						}
						var p []string
						for _, m := range js {
							p = append(p, m.Path)
						}
						if fmt.Sprint(p) != fmt.Sprint(want) {
							v.fail("%v: REST listing of %s is %q, want %q", tr.hist, d.abs(), p, want)
						}
					}
				}
				rec := httptest.NewRecorder()
				textOf(d.abs(), rec)
				if rec.Code == 200 {
					full := rec.Body.String()
					at := 0
					for _, p := range want {
						i := strings.Index(full[at:], p+" ")
						if i < 0 || at+i > 0 && full[at+i-1] != '\n' {
							v.fail("%v: text listing of %s is %q, want %q in this order", tr.hist, d.abs(), full, want)
						}
						at += i + 1
					}
					if n := strings.Count(full, "\n"); n != len(want) {
						v.fail("%v: text listing of %s is %q, want %q", tr.hist, d.abs(), full, want)
					}
					f := &failing{h: http.Header{}, left: v.R.Intn(2*len(want) + 1)}
					room := f.left
					v.within(fmt.Sprint(tr.hist), func() { textOf(d.abs(), f) })
					if !strings.HasPrefix(full, f.text.String()) || (f.failed > 0 && f.failed != 2) {
						v.fail("%v: text listing of %s to a writer failing after %d writes: wrote %q, then %d more attempts (one failing write and one error message expected); full text %q", tr.hist, d.abs(), room, f.text.String(), f.failed, full)
					}
				}
			}
			for _, w := range tr.top.list() {
				if s := tr.one(w); s != "" {
					v.fail("%v: %s", tr.hist, s)
				}
				if l := tricorder.ReadMyMetrics(w.path + "/nothing"); len(l) != 0 {
					v.fail("%v: listing below metric %s gives %q", tr.hist, w.path, paths(l))
				}
			}
			if l := tricorder.ReadMyMetrics(tr.top.name + "/nothing here"); len(l) != 0 {
				v.fail("%v: listing of a path that does not exist gives %q", tr.hist, paths(l))
			}
		}
		v.sample("%v", tr.hist)
		tr.close()
	}
	v.done()
}
