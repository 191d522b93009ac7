package healthserver_test

import (
	"fmt"
	"github.com/Symantec/tricorder/go/healthserver"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

func get(path string) (int, string) {
	r := httptest.NewRecorder()
	q, _ := http.NewRequest("GET", path, nil)
	http.DefaultServeMux.ServeHTTP(r, q)
	return r.Code, r.Body.String()
}

func TestVerif(t *testing.T) {
	v := newV(t)
	health, ready := "", "not ready"
	var hist []string
	check := func() {
		for _, p := range []struct{ path, st string }{{"/healthz", health}, {"/readiness", ready}} {
			var code int
			var body string
			v.within(fmt.Sprintf("GET %s after %v", p.path, tail(hist)), func() { code, body = get(p.path) })
			want, wb := 503, p.st
			if p.st == "" {
				want, wb = 200, "OK"
			}
			if code != want || strings.TrimSuffix(body, "\n") != wb {
				v.fail("after %v: GET %s answers %d %q, want %d %q", tail(hist), p.path, code, body, want, wb)
			}
		}
	}
	check()
	sts := []string{"sick", "", "OK", "ok", "OK ", " ", "not ready", "a\nb", "<b>", "K", "OKAY", strings.Repeat("x", 5000)}
	for v.more(3000, 60000) {
		s := sts[v.R.Intn(len(sts))]
		if v.R.Intn(4) == 0 {
			s = fmt.Sprint("status ", v.R.Intn(1000))
		}
		op := v.R.Intn(4)
		hist = append(hist, fmt.Sprintf("%s(%.20q)", []string{"SetHealthy", "SetReady", "SetNotHealthy", "SetNotReady"}[op], s))
		var p bool
		v.within(fmt.Sprint(tail(hist)), func() {
			p, _ = panics(func() {
				switch op {
				case 0:
					healthserver.SetHealthy()
				case 1:
					healthserver.SetReady()
				case 2:
					healthserver.SetNotHealthy(s)
				case 3:
					healthserver.SetNotReady(s)
				}
			})
		})
		refuse := op >= 2 && (s == "" || s == "OK")
		if p != refuse {
			v.fail("after %v: panicked=%v, want %v", tail(hist), p, refuse)
		}
		if !p {
			switch op {
			case 0:
				health = ""
			case 1:
				ready = ""
			case 2:
				health = s
			case 3:
				ready = s
			}
		}
		check()
		v.sample("%v", tail(hist))
	}
	v.done()
}

func tail(h []string) []string {
	if len(h) > 6 {
		return h[len(h)-6:]
	}
	return h
}
