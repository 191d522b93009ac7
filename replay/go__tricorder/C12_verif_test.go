package tricorder_test

//verif:race

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func lkGet(path string) string {
	r := httptest.NewRecorder()
	q, _ := http.NewRequest("GET", path, nil)
	http.DefaultServeMux.ServeHTTP(r, q)
	return r.Body.String()
}

// together runs the functions concurrently, each n times.
func together(n int, fs ...func(k int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < n; k++ {
				f(k)
			}
		}()
	}
	close(start)
	wg.Wait()
}

func lkDists(v *V, dir string) {
	var bk *tricorder.Bucketer
	switch v.R.Intn(3) {
	case 0:
		bk = tricorder.NewArbitraryBucketer(10, 20, 50)
	case 1:
		bk = tricorder.PowersOfTwo
	default:
		bk = tricorder.NewGeometricBucketer(1, 1000)
	}
	c, n := bk.NewCumulativeDistribution(), bk.NewNonCumulativeDistribution()
	if tricorder.RegisterMetric(dir+"/c", c, units.Second, "") != nil || tricorder.RegisterMetric(dir+"/n", n, units.Second, "") != nil {
		v.fail("cannot register distributions")
	}
	const N = 25
	look := func(k int) {
		for _, m := range tricorder.ReadMyMetrics(dir) {
			d, ok := m.Value.(*messages.Distribution)
			if !ok {
				continue
			}
			var sum uint64
			for _, r := range d.Ranges {
				sum += r.Count
			}
			if sum != d.Count {
				v.fail("a reader concurrent with updates sees %s with count %d and %d values in its buckets", m.Path, d.Count, sum)
			}
			if strings.HasSuffix(m.Path, "/c") && d.Count > 0 && (d.Generation != d.Count || d.Sum < 5*float64(d.Count)-1e-9 || d.Sum > 30*float64(d.Count)+1e-9) {
				v.fail("a reader concurrent with additions sees %s torn: count %d generation %d sum %v", m.Path, d.Count, d.Generation, d.Sum)
			}
		}
	}
	together(N,
		func(k int) { c.Add(5.0) }, func(k int) { c.Add(30 * time.Second) }, func(k int) { panics(func() { c.Add("x") }) },
		func(k int) { n.Add(5.0) }, func(k int) { n.Add(5.0); n.Update(5.0, 30.0) }, func(k int) { n.Add(15.0); n.Remove(15.0) },
		func(k int) {
			panics(func() { n.Remove(700.0) })
			panics(func() { n.Update(800.0, 1.0) })
			panics(func() { n.Update(5.0, "x") })
			panics(func() { n.Remove("x") })
		},
		func(k int) { n.Sum(); n.Count() },
		func(k int) {
			if tricorder.RegisterMetric(fmt.Sprintf("%s/a%d", dir, k), n, units.Second, "") != nil || tricorder.RegisterMetric(fmt.Sprintf("%s/b%d", dir, k), n, units.Byte, "") == nil {
				v.fail("the unit of a distribution is not kept")
			}
		},
		look,
		func(k int) {
			if k%5 == 0 {
				lkGet("/metricsapi" + dir)
				lkGet("/metrics" + dir + "?format=text")
				lkGet("/metrics" + dir + "/n")
			}
		})
	if n.Count() != 2*N || n.Sum() != 5.0*N+30.0*N {
		v.fail("after %d concurrent additions and updates: count %d sum %v", 2*N, n.Count(), n.Sum())
	}
	look(0)
}

// the unit of a distribution is set by its first registration
func lkUnits(v *V, dir string) {
	for i := 0; i < 20; i++ {
		c, n := tricorder.PowersOfFour.NewCumulativeDistribution(), tricorder.PowersOfFour.NewNonCumulativeDistribution()
		together(5,
			func(k int) { panics(func() { c.Add(5 * time.Second) }) },
			func(k int) { panics(func() { n.Add(5 * time.Second) }); panics(func() { n.Update(5*time.Second, time.Second) }) },
			func(k int) { panics(func() { n.Remove(5 * time.Second) }); panics(func() { n.Remove(time.Second) }) },
			func(k int) { tricorder.RegisterMetric(fmt.Sprintf("%s/c%d/%d", dir, i, k), c, units.Second, "") },
			func(k int) { tricorder.RegisterMetric(fmt.Sprintf("%s/n%d/%d", dir, i, k), n, units.Second, "") })
	}
}

// what is reported for a list is the value and the time stamp of one change
func lkStamps(v *V, dir string) {
	l := tricorder.NewList([]int64{0}, false)
	tricorder.RegisterMetric(dir+"/l", l, units.None, "")
	var mu sync.Mutex
	before := []time.Time{time.Now()}
	together(3000, func(k int) {
		mu.Lock()
		before = append(before, time.Now())
		mu.Unlock()
		l.Change([]int64{int64(k + 1)}, false)
	}, func(k int) {
		ms := tricorder.ReadMyMetrics(dir + "/l")
		if len(ms) != 1 {
			v.fail("the list is gone")
		}
		x, ok := ms[0].Value.([]int64)
		ts, ok2 := ms[0].TimeStamp.(time.Time)
		if !ok || !ok2 || len(x) != 1 {
			v.fail("the list is reported as %v at %v", ms[0].Value, ms[0].TimeStamp)
		}
		mu.Lock()
		defer mu.Unlock()
		if int(x[0])+1 < len(before) && ts.After(before[x[0]+1]) {
			v.fail("change number %d of a list is reported with the time stamp of a later one", x[0])
		}
	})
}

func lkLists(v *V, dir string) {
	mk := func(x, n int) []int64 {
		r := make([]int64, n)
		for i := range r {
			r[i] = int64(x)
		}
		return r
	}
	l := tricorder.NewList(mk(0, 3), false)
	if tricorder.RegisterMetric(dir+"/l", l, units.None, "") != nil {
		v.fail("cannot register a list")
	}
	change := func(g int) func(int) {
		return func(k int) { l.Change(mk(g, 3+g), k%2 == 0) }
	}
	together(25, change(0), change(1), change(2), func(k int) { panics(func() { l.Change([]string{"a"}, true) }); panics(func() { l.Change(5, true) }) },
		func(k int) {
			for _, m := range tricorder.ReadMyMetrics(dir) {
				a, ok := m.Value.([]int64)
				if !ok || len(a) < 3 {
					v.fail("a reader concurrent with changes sees the list as %T %v", m.Value, m.Value)
				}
				for _, x := range a {
					if int(x)+3 != len(a) {
						v.fail("a reader concurrent with changes sees a mixed list %v", a)
					}
				}
			}
		},
		func(k int) {
			if k%5 == 0 {
				lkGet("/metricsapi" + dir)
				lkGet("/metrics" + dir + "?format=text")
				lkGet("/metrics" + dir + "/l")
			}
		})
}

func lkTree(v *V, dir string) {
	var x int64
	won := make([]int32, 40)
	dirs := make([]map[*tricorder.DirectorySpec]bool, 40)
	var mu sync.Mutex
	reg := func(k int) {
		if tricorder.RegisterMetric(fmt.Sprintf("%s/m%d", dir, k), &x, units.None, "") == nil {
			mu.Lock()
			won[k]++
			mu.Unlock()
		}
		d, err := tricorder.RegisterDirectory(fmt.Sprintf("%s/d%d", dir, k))
		if err != nil {
			v.fail("a directory registered concurrently is refused: %v", err)
		}
		mu.Lock()
		if dirs[k] == nil {
			dirs[k] = map[*tricorder.DirectorySpec]bool{}
		}
		dirs[k][d] = true
		mu.Unlock()
	}
	var n int
	add := func(g int) func(int) {
		return func(k int) {
			if err := tricorder.RegisterMetric(fmt.Sprintf("%s/s%d/v%d", dir, k, g), &x, units.None, ""); err != nil {
				v.fail("registering %s/s%d/v%d concurrently with its siblings: %v", dir, k, g, err)
			}
		}
	}
	churn := func(g int) func(int) {
		return func(k int) {
			p := fmt.Sprintf("%s/t%d", dir, g)
			tricorder.RegisterMetric(p+"/a/b", &x, units.None, "")
			tricorder.RegisterMetric(p+"/c", &x, units.None, "")
			d, err := tricorder.GetDirectory(p)
			if err != nil {
				v.fail("%s registered by this goroutine alone is gone: %v", p, err)
			}
			d.RegisterMetric("e", &x, units.None, "")
			d.UnregisterPath("a")
			tricorder.UnregisterPath(p + "/c")
			if k%2 == 0 {
				d.UnregisterDirectory()
			} else {
				tricorder.UnregisterPath(p)
			}
		}
	}
	together(40, reg, reg, reg, reg, reg, add(0), add(1), add(2), add(3), churn(0), churn(1),
		func(k int) {
			ms := tricorder.ReadMyMetrics(dir)
			seen := map[string]bool{}
			for _, m := range ms {
				if seen[m.Path] {
					v.fail("a listing concurrent with registrations has %s twice", m.Path)
				}
				seen[m.Path] = true
			}
		},
		func(k int) {
			if k%8 == 0 {
				lkGet("/metrics" + dir)
				lkGet("/metricsapi" + dir)
				lkGet("/metrics" + dir + "?format=text")
			}
		})
	for k := range won {
		if won[k] != 1 {
			v.fail("%d of 5 concurrent registrations of %s/m%d succeeded", won[k], dir, k)
		}
		if len(dirs[k]) != 1 {
			v.fail("5 concurrent registrations of the directory %s/d%d gave %d directories", dir, k, len(dirs[k]))
		}
	}
	for _, m := range tricorder.ReadMyMetrics(dir) {
		if strings.Contains(m.Path, "/s") {
			n++
		}
	}
	if n != 160 {
		v.fail("%d of 160 metrics registered concurrently are listed", n)
	}
}

func TestVerif(t *testing.T) {
	v := newV(t)
	for v.more(20, 300) {
		dir := fmt.Sprintf("/lk/%d", v.cases)
		v.within("concurrent operations under "+dir, func() {
			switch v.cases % 5 {
			case 3:
				lkUnits(v, dir)
			case 4:
				lkStamps(v, dir)
			case 0:
				lkDists(v, dir)
			case 1:
				lkLists(v, dir)
			case 2:
				lkTree(v, dir)
			}
			tricorder.UnregisterPath(dir)
		})
	}
	v.done()
}
