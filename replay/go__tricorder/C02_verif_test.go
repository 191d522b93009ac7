package tricorder_test

//verif:add go/tricorder/zz_tree_common_test.go tree_common.go.txt

import (
	"github.com/Symantec/tricorder/go/tricorder"
	"testing"
)

func TestVerif(t *testing.T) {
	v := newV(t)
	for v.more(200, 40000) {
		tr := newTree(v, 2+v.R.Intn(3), false)
		for k := 0; k < 30 && !tr.aborted; k++ {
			if v.R.Intn(5) < 3 {
				// What registering does is not judged here.
				var bad string
				if v.R.Intn(2) == 0 {
					bad = tr.registerDir()
				} else {
					bad = tr.register()
				}
				if bad != "" || tr.aborted || tr.check() != "" {
					break
				}
				continue
			}
			bad := tr.unregister()
			if bad == "" {
				bad = tr.check()
			}
			if bad != "" {
				v.fail("%v: %s", tr.hist, bad)
			}
		}
		if !tr.aborted {
			tr.close()
			if l := tricorder.ReadMyMetrics(tr.top.name); len(l) != 0 {
				v.fail("%v, unregister %s: %s still listed", tr.hist, tr.top.name, l[0].Path)
			}
			if _, err := tricorder.GetDirectory(tr.top.name); err != tricorder.ErrNotFound {
				v.fail("%v, unregister %s: still found (%v)", tr.hist, tr.top.name, err)
			}
		}
		if _, err := tricorder.GetDirectory("/proc"); err != nil {
			v.fail("%v: /proc: %v", tr.hist, err)
		}
		v.sample("%v", tr.hist)
	}
	v.done()
}
