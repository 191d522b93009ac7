package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shapeMismatch reports whether a helper's parameter types no longer fit the
// types recorded in its contract header (when it records any).
func (con *Contract) shapeMismatch(fn *ssa.Function) bool {
	if len(con.Results) > 0 && fn.Signature.Results().Len() != len(con.Results) {
		return true
	}
	return false
}

// coverage checks, for properties with guards, that every function of the
// repository that touches guarded state was analysed.
func coverage(p *Program, db *SpecDB, prop string, verified, inlined map[string]bool) []string {
	var guards []*Guard
	for _, g := range db.Guards {
		if len(g.Props) > 0 && visible(g.Props, prop) && prop != "" {
			guards = append(guards, g)
		}
	}
	if len(guards) == 0 {
		return nil
	}
	base := func(m map[string]bool) map[string]bool {
		o := map[string]bool{}
		for k, v := range m {
			if i := strings.LastIndex(k, "@"); i >= 0 {
				k = k[:i]
			}
			o[k] = o[k] || v
		}
		return o
	}
	verified, inlined = base(verified), base(inlined)
	var out []string
	for _, f := range p.allFuncs() {
		if isInit(f) {
			continue
		}
		name := shortName(f.RelString(nil))
		if verified[name] || inlined[name] {
			continue
		}
		if con := db.Contracts[name]; con != nil && con.Trusted {
			continue
		}
		what := ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
					st := pt.Underlying().(*types.Struct)
					fn := st.Field(fa.Field).Name()
					if al, ok := fa.X.(*ssa.Alloc); ok && al.Heap {
						continue // a new object
					}
					for _, g := range guards {
						if g.Global || shortName(typeName(pt)) != g.Type {
							continue
						}
						for _, gf := range g.Fields {
							if gf == fn {
								what = g.Type + "." + fn
							}
						}
					}
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if gl, ok := (*op).(*ssa.Global); ok {
						for _, g := range guards {
							if g.Global {
								for _, gf := range g.Fields {
									if gf == shortName(gl.RelString(nil)) {
										what = gf
									}
								}
							}
						}
					}
				}
			}
		}
		if what != "" {
			out = append(out, name+" touches "+what+", which a lock guards, but is reached by no verified function")
		}
	}
	return out
}
