package healthserver_test

//verif:race

import (
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"

	"github.com/Symantec/tricorder/go/healthserver"
)

func TestVerif(t *testing.T) {
	v := newV(t)
	for v.more(20, 200) {
		v.within("setting and reading the status concurrently", func() {
			var wg sync.WaitGroup
			for i := 0; i < 8; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 30; k++ {
						switch i {
						case 0:
							healthserver.SetHealthy()
						case 1:
							healthserver.SetReady()
						case 2:
							panics(func() { healthserver.SetNotHealthy([]string{"sick", ""}[k%2]) })
						case 3:
							panics(func() { healthserver.SetNotReady([]string{"busy", ""}[k%2]) })
						default:
							r := httptest.NewRecorder()
							q, _ := http.NewRequest("GET", []string{"/healthz", "/readiness"}[i%2], nil)
							http.DefaultServeMux.ServeHTTP(r, q)
							b := strings.TrimSuffix(r.Body.String(), "\n")
							if r.Code == 200 && b != "OK" || r.Code != 200 && (r.Code != 503 || b == "OK") {
								v.fail("a reader sees status %d with body %q", r.Code, b)
							}
						}
					}
				}()
			}
			wg.Wait()
		})
	}
	v.done()
}
