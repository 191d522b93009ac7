package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sorts are SMT-LIB sort strings.
type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SReal  Sort = "Real"
	SStr   Sort = "Str"
	SIface Sort = "Iface"
	STime  Sort = "Time"
	SRV    Sort = "RV"
	SF64   Sort = "(_ FloatingPoint 11 53)"
	SF32   Sort = "(_ FloatingPoint 8 24)"
	SRM    Sort = "RoundingMode"
)

func arraySort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func bvSort(n int) Sort { return Sort(fmt.Sprintf("(_ BitVec %d)", n)) }

// splitArray returns key and value sorts of an array sort.
func splitArray(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	inner := str[len("(Array ") : len(str)-1]
	depth := 0
	for i, c := range inner {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(inner[:i]), Sort(inner[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

type Term struct {
	Op     string
	Args   []*Term
	S      Sort
	ID     int
	I      *big.Int // integer literal
	Bound  []*Term  // quantifier binders
	Pats   [][]*Term
	hasBV  bool // contains free bound variables
	hasQ   bool // contains a quantifier
	qh     int  // nesting height of quantifiers
	serial int  // for symbols: creation serial
	maxSer int  // max serial of contained symbols
}

type FunDecl struct {
	Name string
	Args []Sort
	Res  Sort
}

// Ctx owns a table of hash-consed terms. One per verification task.
type Ctx struct {
	table   map[string]*Term
	nextID  int
	serial  int
	decls   map[string]*FunDecl
	axioms  map[string][]*Term // function/symbol name -> axioms to include when used
	sorts   map[Sort]bool
	strLits map[string]*Term
	heavy   map[*Term]bool
	FltMode string // "fp", "real", "uf"
	Rnd     bool   // mode float=rnd: reals, every machine operation followed by a rounding function
	BV      bool
	tagOf   map[string]int
	tags    []tagInfo
}

func NewCtx() *Ctx {
	c := &Ctx{table: map[string]*Term{}, decls: map[string]*FunDecl{}, axioms: map[string][]*Term{}, strLits: map[string]*Term{}, FltMode: "fp", heavy: map[*Term]bool{}, tagOf: map[string]int{}}
	return c
}

func (c *Ctx) mk(op string, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	for _, a := range args {
		if a == nil {
			panic("nil arg in " + op)
		}
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := c.table[k]; ok {
		return t
	}
	t := &Term{Op: op, Args: args, S: s, ID: c.nextID}
	c.nextID++
	for _, a := range args {
		if a.hasBV {
			t.hasBV = true
		}
		if a.maxSer > t.maxSer {
			t.maxSer = a.maxSer
		}
		if a.hasQ {
			t.hasQ = true
		}
		if a.qh > t.qh {
			t.qh = a.qh
		}
	}
	c.table[k] = t
	return t
}

// Sym returns a fresh 0-ary symbol with the given hint.
func (c *Ctx) Fresh(hint string, s Sort) *Term {
	c.serial++
	name := fmt.Sprintf("%s!%d", sanitize(hint), c.serial)
	return c.NamedSym(name, s)
}

func (c *Ctx) NamedSym(name string, s Sort) *Term {
	if d, ok := c.decls[name]; ok {
		if d.Res != s {
			panic("sort clash for " + name + ": " + string(d.Res) + " vs " + string(s))
		}
	} else {
		c.decls[name] = &FunDecl{Name: name, Res: s}
	}
	t := c.mk(name, s)
	if t.serial == 0 {
		t.serial = c.serial
		t.maxSer = c.serial
		if t.serial == 0 {
			t.serial = -1
		}
	}
	return t
}

func (c *Ctx) BoundVar(hint string, s Sort) *Term {
	c.serial++
	t := c.mk(fmt.Sprintf("%s?%d", sanitize(hint), c.serial), s)
	t.hasBV = true
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '!' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	if sb.Len() == 0 {
		return "x"
	}
	return sb.String()
}

func (c *Ctx) DeclFun(name string, args []Sort, res Sort) {
	if d, ok := c.decls[name]; ok {
		if d.Res != res || len(d.Args) != len(args) {
			panic("redeclaration of " + name)
		}
		for i := range args {
			if d.Args[i] != args[i] {
				panic(fmt.Sprintf("redeclaration of %s: arg %d %s vs %s", name, i, d.Args[i], args[i]))
			}
		}
		return
	}
	c.decls[name] = &FunDecl{Name: name, Args: args, Res: res}
}

func (c *Ctx) App(name string, res Sort, args ...*Term) *Term {
	as := make([]Sort, len(args))
	for i, a := range args {
		as[i] = a.S
	}
	c.DeclFun(name, as, res)
	return c.mk(name, res, args...)
}

// AddAxiom registers ax to be emitted whenever symbol name occurs in a query.
func (c *Ctx) AddAxiom(name string, ax *Term) {
	for _, a := range c.axioms[name] {
		if a == ax {
			return
		}
	}
	c.axioms[name] = append(c.axioms[name], ax)
}

func (c *Ctx) Int(i int64) *Term { return c.Big(big.NewInt(i)) }
func (c *Ctx) Big(i *big.Int) *Term {
	t := c.mk("#"+i.String(), SInt)
	if t.I == nil {
		t.I = new(big.Int).Set(i)
	}
	return t
}
func (c *Ctx) True() *Term  { return c.mk("true", SBool) }
func (c *Ctx) False() *Term { return c.mk("false", SBool) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}
func (t *Term) IsTrue() bool  { return t.Op == "true" }
func (t *Term) IsFalse() bool { return t.Op == "false" }

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a.IsTrue():
		return c.False()
	case a.IsFalse():
		return c.True()
	case a.Op == "not":
		return a.Args[0]
	}
	return c.mk("not", SBool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.IsFalse() {
			return false
		}
		if t.IsTrue() || seen[t] {
			return true
		}
		if t.Op == "and" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False()
		}
	}
	for _, o := range out {
		if seen[c.Not(o)] {
			return c.False()
		}
	}
	switch len(out) {
	case 0:
		return c.True()
	case 1:
		return out[0]
	}
	return c.mk("and", SBool, out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.IsTrue() {
			return a
		}
		if a.IsFalse() || seen[a] {
			continue
		}
		seen[a] = true
		if a.Op == "or" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		out = append(out, a)
	}
	for _, o := range out {
		if seen[c.Not(o)] {
			return c.True()
		}
	}
	switch len(out) {
	case 0:
		return c.False()
	case 1:
		return out[0]
	}
	return c.mk("or", SBool, out...)
}

func (c *Ctx) Imp(a, b *Term) *Term {
	if a.IsTrue() {
		return b
	}
	if a.IsFalse() || b.IsTrue() {
		return c.True()
	}
	if b.IsFalse() {
		return c.Not(a)
	}
	if a == b {
		return c.True()
	}
	return c.mk("=>", SBool, a, b)
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.IsTrue() {
		return a
	}
	if g.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.S == SBool {
		if a.IsTrue() && b.IsFalse() {
			return g
		}
		if a.IsFalse() && b.IsTrue() {
			return c.Not(g)
		}
		if a.IsTrue() {
			return c.Or(g, b)
		}
		if b.IsFalse() {
			return c.And(g, a)
		}
		if a.IsFalse() {
			return c.And(c.Not(g), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(g), a)
		}
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %s vs %s", a.S, b.S))
	}
	return c.mk("ite", a.S, g, a, b)
}

func isStrLit(t *Term) bool { return strings.HasPrefix(t.Op, "lit!") }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts %s vs %s (%s = %s)", a.S, b.S, c.Show(a), c.Show(b)))
	}
	if a.I != nil && b.I != nil {
		return c.Bool(a.I.Cmp(b.I) == 0)
	}
	if a.S == SBool {
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return c.Not(b)
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	}
	if isStrLit(a) && isStrLit(b) {
		return c.False()
	}
	if a.S == SInt {
		// base+k vs base+j
		ba, ka := c.splitOff(a)
		bb, kb := c.splitOff(b)
		if ba == bb {
			return c.Bool(ka.Cmp(kb) == 0)
		}
	}
	if isBVLit(a) && isBVLit(b) {
		return c.Bool(a.Op == b.Op)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk("=", SBool, a, b)
}

// splitOff splits t into base + literal.
func (c *Ctx) splitOff(t *Term) (*Term, *big.Int) {
	if t.I != nil {
		return nil, t.I
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].I != nil {
		return t.Args[0], t.Args[1].I
	}
	return t, new(big.Int)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.S == SReal {
		return c.mk("+", SReal, a, b)
	}
	if a.I != nil && b.I != nil {
		return c.Big(new(big.Int).Add(a.I, b.I))
	}
	if a.I != nil {
		a, b = b, a
	}
	if b.I != nil {
		if b.I.Sign() == 0 {
			return a
		}
		base, k := c.splitOff(a)
		if base != nil {
			s := new(big.Int).Add(k, b.I)
			if s.Sign() == 0 {
				return base
			}
			return c.mk("+", SInt, base, c.Big(s))
		}
	}
	if a.Op == "+" && len(a.Args) == 2 && a.Args[1].I != nil {
		return c.Add(c.Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == "+" && len(b.Args) == 2 && b.Args[1].I != nil {
		return c.Add(c.Add(a, b.Args[0]), b.Args[1])
	}
	return c.mk("+", SInt, a, b)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.S == SReal {
		return c.mk("-", SReal, a)
	}
	if a.I != nil {
		return c.Big(new(big.Int).Neg(a.I))
	}
	return c.Mul(c.Int(-1), a)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a.S == SReal {
		return c.mk("-", SReal, a, b)
	}
	if b.I != nil {
		return c.Add(a, c.Big(new(big.Int).Neg(b.I)))
	}
	if a == b {
		return c.Int(0)
	}
	ba, ka := c.splitOff(a)
	bb, kb := c.splitOff(b)
	if ba == bb && ba != nil {
		return c.Big(new(big.Int).Sub(ka, kb))
	}
	return c.mk("-", SInt, a, b)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.S == SReal {
		return c.mk("*", SReal, a, b)
	}
	if a.I != nil && b.I != nil {
		return c.Big(new(big.Int).Mul(a.I, b.I))
	}
	if a.I != nil {
		a, b = b, a
	}
	if b.I != nil {
		if b.I.Sign() == 0 {
			return c.Int(0)
		}
		if b.I.IsInt64() && b.I.Int64() == 1 {
			return a
		}
		if a.Op == "*" && a.Args[1].I != nil {
			return c.Mul(a.Args[0], c.Big(new(big.Int).Mul(a.Args[1].I, b.I)))
		}
	}
	return c.mk("*", SInt, a, b)
}

// EDiv, EMod: SMT-LIB Euclidean division (divisor positive literal expected).
func (c *Ctx) EDiv(a, b *Term) *Term {
	if a.I != nil && b.I != nil && b.I.Sign() > 0 {
		q, _ := new(big.Int).DivMod(a.I, b.I, new(big.Int))
		return c.Big(q)
	}
	if b.I != nil && b.I.IsInt64() && b.I.Int64() == 1 {
		return a
	}
	return c.mk("div", SInt, a, b)
}
func (c *Ctx) EMod(a, b *Term) *Term {
	if a.I != nil && b.I != nil && b.I.Sign() > 0 {
		_, m := new(big.Int).DivMod(a.I, b.I, new(big.Int))
		return c.Big(m)
	}
	return c.mk("mod", SInt, a, b)
}

// TDiv, TRem: Go truncated division.
func (c *Ctx) TDiv(a, b *Term) *Term {
	if b.I != nil && b.I.Sign() > 0 {
		if a.I != nil {
			return c.Big(new(big.Int).Quo(a.I, b.I))
		}
		return c.Ite(c.Le(c.Int(0), a), c.EDiv(a, b), c.Neg(c.EDiv(c.Neg(a), b)))
	}
	absb := c.Ite(c.Le(c.Int(0), b), b, c.Neg(b))
	absa := c.Ite(c.Le(c.Int(0), a), a, c.Neg(a))
	q := c.EDiv(absa, absb)
	same := c.Eq(c.Le(c.Int(0), a), c.Le(c.Int(0), b))
	return c.Ite(same, q, c.Neg(q))
}
func (c *Ctx) TRem(a, b *Term) *Term {
	if b.I != nil && b.I.Sign() > 0 {
		if a.I != nil {
			return c.Big(new(big.Int).Rem(a.I, b.I))
		}
		return c.Ite(c.Le(c.Int(0), a), c.EMod(a, b), c.Neg(c.EMod(c.Neg(a), b)))
	}
	return c.Sub(a, c.Mul(c.TDiv(a, b), b))
}

func (c *Ctx) Lt(a, b *Term) *Term {
	if a.S == SReal {
		return c.mk("<", SBool, a, b)
	}
	return c.Le(c.Add(a, c.Int(1)), b)
}

func (c *Ctx) Le(a, b *Term) *Term {
	if a.S == SReal {
		return c.mk("<=", SBool, a, b)
	}
	if a == b {
		return c.True()
	}
	ba, ka := c.splitOff(a)
	bb, kb := c.splitOff(b)
	if ba == bb {
		return c.Bool(ka.Cmp(kb) <= 0)
	}
	if ba != nil && bb != nil && (ka.Sign() != 0 && kb.Sign() != 0) {
		// normalise offsets onto one side
		return c.Le(c.Add(ba, c.Big(new(big.Int).Sub(ka, kb))), bb)
	}
	return c.mk("<=", SBool, a, b)
}
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Select(a, i *Term) *Term {
	k, v := splitArray(a.S)
	if i.S != k {
		panic(fmt.Sprintf("select index sort %s, want %s", i.S, k))
	}
	cur := a
	for {
		if cur.Op == "store" {
			e := c.Eq(cur.Args[1], i)
			if e.IsTrue() {
				return cur.Args[2]
			}
			if e.IsFalse() || c.provablyDistinct(cur.Args[1], i) {
				cur = cur.Args[0]
				continue
			}
		}
		if cur.Op == "constarray" {
			return cur.Args[0]
		}
		break
	}
	return c.mk("select", v, cur, i)
}

// provablyDistinct is a cheap syntactic test.
func (c *Ctx) provablyDistinct(a, b *Term) bool {
	return c.Eq(a, b).IsFalse()
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	k, vs := splitArray(a.S)
	if i.S != k || v.S != vs {
		panic(fmt.Sprintf("store sorts: array %s index %s value %s", a.S, i.S, v.S))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.mk("store", a.S, a, i, v)
}

func (c *Ctx) ConstArray(s Sort, v *Term) *Term {
	return c.mk("constarray", s, v)
}

func (c *Ctx) Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return c.quant("forall", vars, body, pats)
}
func (c *Ctx) Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return c.quant("exists", vars, body, pats)
}

func (c *Ctx) quant(q string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if !body.hasBV || len(vars) == 0 {
		return body
	}
	// bound variables get canonical names (by nesting height), so that
	// alpha-equivalent formulas are one term
	h := body.qh + 1
	ren := map[*Term]*Term{}
	cv := make([]*Term, len(vars))
	for i, v := range vars {
		cv[i] = c.mk(fmt.Sprintf("q?%d.%d", h, i), v.S)
		cv[i].hasBV = true
		if cv[i] != v {
			ren[v] = cv[i]
		}
	}
	if len(ren) > 0 {
		body = c.Subst(body, ren)
		np := make([][]*Term, len(pats))
		for i, p := range pats {
			for _, t := range p {
				np[i] = append(np[i], c.Subst(t, ren))
			}
		}
		pats, vars = np, cv
	}
	args := append([]*Term{}, vars...)
	args = append(args, body)
	key := q
	for _, p := range pats {
		key += ":"
		for _, x := range p {
			key += fmt.Sprintf("%d.", x.ID)
		}
	}
	t := c.mk(fmt.Sprintf("%s/%d/%s", q, len(vars), key), SBool, args...)
	t.Bound = vars
	t.Pats = pats
	t.hasQ = true
	t.qh = h
	// recompute hasBV: free bound vars other than vars
	t.hasBV = c.hasFreeBV(body, vars)
	return t
}

func (c *Ctx) hasFreeBV(t *Term, bound []*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term, b map[*Term]bool) bool
	rec = func(t *Term, b map[*Term]bool) bool {
		if !t.hasBV {
			return false
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		if len(t.Args) == 0 {
			return !b[t]
		}
		if t.Bound != nil {
			nb := map[*Term]bool{}
			for k := range b {
				nb[k] = true
			}
			for _, v := range t.Bound {
				nb[v] = true
			}
			return rec(t.Args[len(t.Args)-1], nb)
		}
		for _, a := range t.Args {
			if rec(a, b) {
				return true
			}
		}
		return false
	}
	b := map[*Term]bool{}
	for _, v := range bound {
		b[v] = true
	}
	return rec(t, b)
}

// Subst replaces terms (symbols or bound vars) by others.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch && t.Bound != nil {
			var np [][]*Term
			for _, p := range t.Pats {
				var q []*Term
				for _, a := range p {
					q = append(q, rec(a))
				}
				np = append(np, q)
			}
			k := "forall"
			if strings.HasPrefix(t.Op, "exists") {
				k = "exists"
			}
			n := len(t.Bound)
			r = c.quant(k, na[:n], na[n], np)
		} else if ch {
			r = c.rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, na []*Term) *Term {
	if t.Bound != nil {
		q := "forall"
		if strings.HasPrefix(t.Op, "exists") {
			q = "exists"
		}
		n := len(t.Bound)
		return c.quant(q, na[:n], na[n], nil)
	}
	switch t.Op {
	case "not":
		return c.Not(na[0])
	case "and":
		return c.And(na...)
	case "or":
		return c.Or(na...)
	case "=>":
		return c.Imp(na[0], na[1])
	case "=":
		return c.Eq(na[0], na[1])
	case "ite":
		return c.Ite(na[0], na[1], na[2])
	case "select":
		return c.Select(na[0], na[1])
	case "store":
		return c.Store(na[0], na[1], na[2])
	case "+":
		if len(na) == 2 {
			return c.Add(na[0], na[1])
		}
	case "-":
		if len(na) == 2 {
			return c.Sub(na[0], na[1])
		}
	case "*":
		return c.Mul(na[0], na[1])
	case "<=":
		return c.Le(na[0], na[1])
	case "<":
		return c.Lt(na[0], na[1])
	}
	return c.mk(t.Op, t.S, na...)
}

func (c *Ctx) Str(lit string) *Term {
	if t, ok := c.strLits[lit]; ok {
		return t
	}
	name := fmt.Sprintf("lit!%d!%s", len(c.strLits), sanitize(lit))
	if len(name) > 60 {
		name = name[:60]
	}
	t := c.NamedSym(name, SStr)
	t.maxSer = 0
	c.strLits[lit] = t
	return t
}

func (c *Ctx) litText(t *Term) (string, bool) {
	for k, v := range c.strLits {
		if v == t {
			return k, true
		}
	}
	return "", false
}

func isBVLit(t *Term) bool { return strings.HasPrefix(t.Op, "(_ bv") }

func (c *Ctx) BVLit(v *big.Int, n int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(n))
	x := new(big.Int).Mod(v, m)
	return c.mk(fmt.Sprintf("(_ bv%s %d)", x.String(), n), bvSort(n))
}

func (c *Ctx) Real(r *big.Rat) *Term {
	num, den := r.Num(), r.Denom()
	neg := num.Sign() < 0
	s := fmt.Sprintf("(/ %s.0 %s.0)", new(big.Int).Abs(num).String(), den.String())
	if den.IsInt64() && den.Int64() == 1 {
		s = new(big.Int).Abs(num).String() + ".0"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return c.mk(s, SReal)
}

// Show prints a term (no sharing), for diagnostics.
func (c *Ctx) Show(t *Term) string {
	s := c.show(t, 0)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func (c *Ctx) show(t *Term, d int) string {
	if d > 12 {
		return "…"
	}
	if t.I != nil {
		return t.I.String()
	}
	if isStrLit(t) {
		if s, ok := c.litText(t); ok {
			return strconv.Quote(s)
		}
	}
	if len(t.Args) == 0 {
		return t.Op
	}
	var parts []string
	if t.Bound != nil {
		parts = append(parts, strings.SplitN(t.Op, "/", 2)[0])
	} else {
		parts = append(parts, t.Op)
	}
	for _, a := range t.Args {
		parts = append(parts, c.show(a, d+1))
	}
	return "(" + strings.Join(parts, " ") + ")"
}

// ---------- SMT-LIB printing ----------

type printer struct {
	c       *Ctx
	out     *strings.Builder
	named   map[*Term]string
	refs    map[*Term]int
	symSeen map[string]bool
	order   []string
}

func quoteSym(s string) string {
	// our sanitised names plus ? and ! are legal simple symbols, others quoted
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.$!?~@%^&*-+=<>/", r)) {
			return "|" + s + "|"
		}
	}
	return s
}

// Query renders assertions as an SMT-LIB script body (without check-sat).
func (c *Ctx) Query(asserts []*Term) string { return c.query(asserts, false) }

// query with light set leaves out the heavy axioms (definitions and lemmas), for questions whose
// negative answer is harmless.
func (c *Ctx) query(asserts []*Term, light bool) string {
	// collect needed axioms by fixpoint
	all := append([]*Term{}, asserts...)
	seenSym := map[string]bool{}
	seenT := map[*Term]bool{}
	var syms []string
	var visit func(t *Term)
	visit = func(t *Term) {
		if seenT[t] {
			return
		}
		seenT[t] = true
		if t.Bound == nil && t.I == nil {
			if _, ok := c.decls[t.Op]; ok && !seenSym[t.Op] {
				seenSym[t.Op] = true
				syms = append(syms, t.Op)
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				visit(x)
			}
		}
	}
	for i := 0; i < len(all); i++ {
		visit(all[i])
		for j := 0; j < len(syms); j++ {
			_ = j
		}
		if i == len(all)-1 {
			// add axioms of symbols seen so far
			n := len(all)
			inAll := map[*Term]bool{}
			for _, a := range all {
				inAll[a] = true
			}
			ss := append([]string{}, syms...)
			sort.Strings(ss)
			for _, s := range ss {
				for _, ax := range c.axioms[s] {
					if !inAll[ax] && !(light && c.heavy[ax]) {
						inAll[ax] = true
						all = append(all, ax)
					}
				}
			}
			if len(all) == n {
				break
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("(declare-sort Str 0)(declare-sort Iface 0)(declare-sort Time 0)(declare-sort RV 0)(declare-sort Seq0 0)\n")
	sort.Strings(syms)
	var lits []string
	for _, s := range syms {
		d := c.decls[s]
		if strings.HasPrefix(s, "lit!") {
			lits = append(lits, quoteSym(s))
		}
		if len(d.Args) == 0 {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", quoteSym(s), d.Res)
		} else {
			as := make([]string, len(d.Args))
			for i, a := range d.Args {
				as[i] = string(a)
			}
			fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", quoteSym(s), strings.Join(as, " "), d.Res)
		}
	}
	if len(lits) > 1 {
		fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	if i := sort.SearchStrings(syms, "strlen"); i < len(syms) && syms[i] == "strlen" {
		in := map[string]bool{}
		for _, s := range lits {
			in[s] = true
		}
		var as []string
		for txt, t := range c.strLits {
			if in[quoteSym(t.Op)] {
				as = append(as, fmt.Sprintf("(assert (= (strlen %s) %d))\n", quoteSym(t.Op), len(txt)))
			}
		}
		sort.Strings(as)
		sb.WriteString(strings.Join(as, ""))
	}
	p := &printer{c: c, out: &sb, named: map[*Term]string{}, refs: map[*Term]int{}}
	for _, a := range all {
		p.count(a)
	}
	for _, a := range all {
		p.define(a)
		fmt.Fprintf(&sb, "(assert %s)\n", p.str(a))
	}
	if c.FltMode == "uf" {
		return "(declare-sort F64 0)(declare-sort F32 0)\n" + strings.NewReplacer(string(SF64), "F64", string(SF32), "F32").Replace(sb.String())
	}
	return sb.String()
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.Args {
		p.count(a)
	}
}

// define emits define-fun for shared closed subterms of t.
func (p *printer) define(t *Term) {
	if _, ok := p.named[t]; ok {
		return
	}
	if t.Bound != nil {
		p.define(t.Args[len(t.Args)-1])
	} else {
		for _, a := range t.Args {
			p.define(a)
		}
	}
	if len(t.Args) > 0 && !t.hasBV && p.refs[t] > 1 {
		s := p.str(t)
		n := fmt.Sprintf("t~%d", t.ID)
		fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", n, t.S, s)
		p.named[t] = n
	}
}

func (p *printer) str(t *Term) string {
	if n, ok := p.named[t]; ok {
		return n
	}
	if t.I != nil {
		if t.I.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.I).String() + ")"
		}
		return t.I.String()
	}
	if len(t.Args) == 0 {
		if strings.HasPrefix(t.Op, "(") || t.S == SReal && t.Op[0] >= '0' && t.Op[0] <= '9' {
			return t.Op
		}
		return quoteSym(t.Op)
	}
	if t.Bound != nil {
		q := strings.SplitN(t.Op, "/", 2)[0]
		var vs []string
		for _, v := range t.Bound {
			vs = append(vs, fmt.Sprintf("(%s %s)", quoteSym(v.Op), v.S))
		}
		body := p.str(t.Args[len(t.Args)-1])
		if len(t.Pats) > 0 {
			ps := ""
			for _, pt := range t.Pats {
				var xs []string
				for _, x := range pt {
					if len(x.Args) == 0 || !x.hasBV || x.Op == "ite" {
						// simplified away: not a pattern any more
						xs = nil
						break
					}
					xs = append(xs, p.str(x))
				}
				if xs == nil {
					continue
				}
				ps += " :pattern (" + strings.Join(xs, " ") + ")"
			}
			if ps != "" {
				body = "(! " + body + ps + ")"
			}
		}
		return fmt.Sprintf("(%s (%s) %s)", q, strings.Join(vs, " "), body)
	}
	var sb strings.Builder
	op := t.Op
	if op == "constarray" {
		op = fmt.Sprintf("(as const %s)", t.S)
	} else if _, ok := p.c.decls[op]; ok {
		op = quoteSym(op)
	}
	sb.WriteString("(" + op)
	for _, a := range t.Args {
		sb.WriteString(" ")
		sb.WriteString(p.str(a))
	}
	sb.WriteString(")")
	return sb.String()
}
