package tricorder_test

//verif:add go/tricorder/zz_tree_common_test.go tree_common.go.txt

import (
	"compress/gzip"
	"encoding/json"
	"fmt"
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/rpc"
	"net/url"
	"os"
	"path"
	"reflect"
	"testing"
	"time"
)

// rest asks for a path and gives the code, the content type and the decoded body.
func rest(v *V, where, query, accept string) (int, string, string) {
	rec := httptest.NewRecorder()
	r := httptest.NewRequest("GET", "/metricsapi/", nil)
	r.URL = &url.URL{Path: "/metricsapi" + where, RawQuery: query}
	if accept != "" {
		r.Header.Set("Accept-Encoding", accept)
	}
	http.DefaultServeMux.ServeHTTP(rec, r)
	res := rec.Result()
	var body io.Reader = res.Body
	zipped := accept == "gzip" || accept == "deflate, gzip"
	if (res.Header.Get("Content-Encoding") == "gzip") != zipped {
		v.fail("GET %s?%s accepting %q: content encoding %q", where, query, accept, res.Header.Get("Content-Encoding"))
	}
	if zipped {
		z, err := gzip.NewReader(res.Body)
		if err != nil {
			v.fail("GET %s?%s accepting %q: not gzip: %v", where, query, accept, err)
		}
		body = z
	}
	b, err := io.ReadAll(body)
	if err != nil {
		v.fail("GET %s?%s accepting %q: %v", where, query, accept, err)
	}
	return res.StatusCode, res.Header.Get("Content-Type"), string(b)
}

func generic(v *V, x interface{}) interface{} {
	b, err := json.Marshal(x)
	if err != nil {
		v.fail("%v", err)
	}
	return parsed(v, string(b))
}

func parsed(v *V, s string) (r interface{}) {
	if err := json.Unmarshal([]byte(s), &r); err != nil {
		v.fail("%q is not JSON: %v", s, err)
	}
	return
}

// forms gives the JSON form of what ReadMyMetrics gives, without timestamps, which may differ between readings.
func forms(v *V, l messages.MetricList) interface{} {
	out := make([]*messages.Metric, 0)
	for _, m := range l {
		c := *m
		c.ConvertToJson()
		out = append(out, &c)
	}
	return untimed(generic(v, out))
}

func untimed(x interface{}) interface{} {
	switch y := x.(type) {
	case []interface{}:
		for i := range y {
			untimed(y[i])
		}
	case map[string]interface{}:
		if y["timestamp"] != nil && y["timestamp"] != "" {
			y["timestamp"] = "some"
		}
	}
	return x
}

func TestVerif(t *testing.T) {
	v := newV(t)
	log.SetOutput(os.Stdout)
	c1, c2 := net.Pipe()
	go rpc.ServeConn(c1)
	client := rpc.NewClient(c2)
	for v.more(100, 40000) {
		tr := newTree(v, 2+v.R.Intn(len(treeNames)-1), false)
		for k := 0; k < 4+v.R.Intn(20) && !tr.aborted; k++ {
			// What registering and unregistering do is not judged here.
			var bad string
			switch v.R.Intn(8) {
			case 0:
				bad = tr.unregister()
			case 1, 2:
				bad = tr.registerDir()
			default:
				bad = tr.register()
			}
			if bad != "" {
				tr.aborted = true
			}
		}
		for _, w := range tr.top.list() {
			l := tricorder.ReadMyMetrics(w.path)
			if len(l) > 1 || (len(l) == 0 && !hidden(w.met.read())) {
				tr.aborted = true
			}
		}
		if !tr.aborted {
			when := time.Unix(v.R.Int63n(2000000000), v.R.Int63n(1000000000))
			long := time.Duration(v.R.Int63n(1 << 40))
			whens := []time.Time{when}
			for _, x := range []struct {
				name string
				m    interface{}
				read interface{}
			}{{"~time", &when, when}, {"~duration", &long, long}, {"~times", tricorder.NewList(whens, false), whens}} {
				x := x
				u := []units.Unit{units.Second, units.Millisecond}[v.R.Intn(2)]
				if tricorder.RegisterMetric(tr.top.name+"/"+x.name, x.m, u, "d"+x.name) == nil {
					tr.top.kids[x.name] = &mnode{met: &mmet{desc: "d" + x.name, unit: u, read: func() interface{} { return x.read }}}
				}
			}
		}
		accepts := []string{"", "gzip", "identity", "deflate, gzip"}
		for _, w := range tr.top.list() {
			// the mux redirects paths with . and ..
			if tr.aborted || hidden(w.met.read()) || path.Clean(w.path) != w.path {
				continue
			}
			var m messages.Metric
			if err := client.Call("MetricsServer.GetMetric", w.path, &m); err != nil {
				v.fail("%v: RPC for %s: %v", tr.hist, w.path, err)
			}
			if m.Path != w.path || m.Description != w.met.desc || m.Unit != w.met.unit {
				v.fail("%v: RPC for %s gives %+v, want unit %q, description %q", tr.hist, w.path, m, w.met.unit, w.met.desc)
			}
			switch want := w.met.read().(type) {
			case time.Time:
				if got, ok := m.Value.(time.Time); !ok || !got.Equal(want) {
					v.fail("%v: RPC for %s gives %v, want %v", tr.hist, w.path, m.Value, want)
				}
			case []time.Time:
				if got, ok := m.Value.([]time.Time); !ok || len(got) != 1 || !got[0].Equal(want[0]) {
					v.fail("%v: RPC for %s gives %v, want %v", tr.hist, w.path, m.Value, want)
				}
			default:
				if !sameValue(m.Value, want) {
					v.fail("%v: RPC for %s gives %v, want %v", tr.hist, w.path, m.Value, want)
				}
			}
			mine := tricorder.ReadMyMetrics(w.path)
			if len(mine) != 1 {
				continue
			}
			query := []string{"singleton=true", "singleton=1", "a=b&singleton=x"}[v.R.Intn(3)]
			accept := accepts[v.R.Intn(4)]
			code, kind, body := rest(v, w.path, query, accept)
			want := forms(v, mine).([]interface{})[0]
			if code != 200 || kind != "application/json" || !reflect.DeepEqual(untimed(parsed(v, body)), want) {
				v.fail("%v: GET %s?%s gives %d %s %s, want %v", tr.hist, w.path, query, code, kind, body, want)
			}
			below := w.path + "/nothing"
			if err := client.Call("MetricsServer.GetMetric", below, &m); err == nil || err.Error() != messages.ErrMetricNotFound.Error() {
				v.fail("%v: RPC for %s: error %v", tr.hist, below, err)
			}
			if code, _, _ := rest(v, below, query, accept); code != 404 {
				v.fail("%v: GET %s?%s gives %d", tr.hist, below, query, code)
			}
			if code, kind, body := rest(v, below, "", accept); code != 200 || kind != "application/json" || !reflect.DeepEqual(parsed(v, body), []interface{}{}) {
				v.fail("%v: GET %s gives %d %s %q, want an empty list", tr.hist, below, code, kind, body)
			}
		}
		for _, d := range tr.top.dirs() {
			if tr.aborted {
				break
			}
			if path.Clean(d.abs()) != d.abs() {
				continue
			}
			accept := accepts[v.R.Intn(4)]
			var m messages.Metric
			if err := client.Call("MetricsServer.GetMetric", d.abs(), &m); err == nil || err.Error() != messages.ErrMetricNotFound.Error() {
				v.fail("%v: RPC for directory %s: error %v", tr.hist, d.abs(), err)
			}
			if code, _, _ := rest(v, d.abs(), "singleton=true", accept); code != 404 {
				v.fail("%v: GET directory %s?singleton=true gives %d", tr.hist, d.abs(), code)
			}
			mine := tricorder.ReadMyMetrics(d.abs())
			code, kind, body := rest(v, d.abs(), []string{"", "singleton=", "x=y"}[v.R.Intn(3)], accept)
			if want := forms(v, mine); code != 200 || kind != "application/json" || !reflect.DeepEqual(untimed(parsed(v, body)), want) {
				v.fail("%v: GET %s gives %d %s %s, want %v", tr.hist, d.abs(), code, kind, body, want)
			}
			var l messages.MetricList
			if err := client.Call("MetricsServer.ListMetrics", d.abs(), &l); err != nil || len(l) != len(mine) {
				v.fail("%v: RPC listing of %s gives %d metrics, error %v, want %d", tr.hist, d.abs(), len(l), err, len(mine))
			}
			for i := range l {
				if l[i] == nil || l[i].Path != mine[i].Path || l[i].Kind != mine[i].Kind || l[i].SubType != mine[i].SubType || l[i].Unit != mine[i].Unit || l[i].Description != mine[i].Description || reflect.TypeOf(l[i].Value) != reflect.TypeOf(mine[i].Value) {
					v.fail("%v: RPC listing of %s has %+v, want %+v", tr.hist, d.abs(), l[i], mine[i])
				}
			}
		}
		v.sample("%v", tr.hist)
		tr.close()
	}
	v.done()
}

var _ = fmt.Sprint
