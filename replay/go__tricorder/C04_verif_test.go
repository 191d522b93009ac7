package tricorder_test

//verif:add go/tricorder/zz_tree_common_test.go tree_common.go.txt

import (
	"github.com/Symantec/tricorder/go/tricorder"
	"strings"
	"testing"
)

func TestVerif(t *testing.T) {
	v := newV(t)
	for v.more(200, 40000) {
		tr := newTree(v, len(treeNames), true)
		for k := 0; k < 20 && !tr.aborted; k++ {
			var bad string
			switch v.R.Intn(6) {
			case 0:
				bad = tr.unregister()
			case 1, 2:
				bad = tr.registerDir()
			default:
				bad = tr.register()
			}
			if bad == "" && !tr.aborted {
				bad = tr.check()
			}
			if bad != "" {
				v.fail("%v: %s", tr.hist, bad)
			}
			if tr.aborted {
				break
			}
			for _, d := range tr.top.dirs() {
				if a := d.spec.AbsPath(); a != d.abs() {
					v.fail("%v: directory %s reports path %q", tr.hist, d.abs(), a)
				}
				var p []string
				for e := d; e.parent != nil; e = e.parent {
					p = append([]string{e.name}, p...)
				}
				s := tr.spellTop(tr.spell(p))
				if g, err := tricorder.GetDirectory(s); err != nil || g != d.spec {
					v.fail("%v: looking up %q gives %p %v, want %s", tr.hist, s, g, err, d.abs())
				}
			}
			for _, w := range tr.top.list() {
				if hidden(w.met.read()) {
					continue
				}
				s := tr.spellTop(tr.spell(strings.Split(w.path[len(tr.top.name)+1:], "/")))
				l := tricorder.ReadMyMetrics(s)
				if len(l) != 1 || l[0].Path != w.path || !sameValue(l[0].Value, w.met.read()) || l[0].Description != w.met.desc {
					v.fail("%v: looking up %q gives %v, want the one metric %s", tr.hist, s, l, w.path)
				}
			}
		}
		if root, err := tricorder.GetDirectory([]string{"", "/", " ", "//\t/"}[v.R.Intn(4)]); err != nil || root.AbsPath() != "/" {
			v.fail("root: %v", err)
		}
		v.sample("%v", tr.hist)
		tr.close()
	}
	v.done()
}
