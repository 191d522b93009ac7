package tricorder_test

//verif:add go/tricorder/zz_tree_common_test.go tree_common.go.txt

import (
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"testing"
)

func TestVerif(t *testing.T) {
	v := newV(t)
	for v.more(200, 40000) {
		tr := newTree(v, 2+v.R.Intn(5), false)
		for k := 0; k < 25 && !tr.aborted; k++ {
			if v.R.Intn(4) == 0 {
				// What unregistering does is not judged here.
				tr.unregister()
				if tr.check() != "" {
					break
				}
				continue
			}
			var bad string
			if v.R.Intn(3) == 0 {
				bad = tr.registerDir()
			} else {
				bad = tr.register()
			}
			if bad == "" && !tr.aborted {
				bad = tr.check()
			}
			if bad != "" {
				v.fail("%v: %s", tr.hist, bad)
			}
		}
		for _, root := range []string{"", "/", " ", "// /"} {
			x := 3
			if err := tricorder.RegisterMetric(root, &x, units.None, "x"); err != tricorder.ErrPathInUse {
				v.fail("%v: registering a metric at %q: %v, want path in use", tr.hist, root, err)
			}
		}
		if _, err := tricorder.GetDirectory("/proc"); err != nil {
			v.fail("%v: /proc: %v", tr.hist, err)
		}
		v.sample("%v", tr.hist)
		tr.close()
	}
	v.done()
}
