package tricorder_test

//verif:race
//verif:add go/tricorder/zz_group_common_test.go group_common.go.txt

import "testing"

func TestVerif(t *testing.T) {
	v := newV(t)
	setupGroups()
	for v.more(40, 20000) {
		switch v.cases % 4 {
		case 0, 1:
			groupsSequential(v)
		case 2:
			groupsOverlapping(v)
		case 3:
			groupsStorm(v)
		}
	}
	v.done()
}
