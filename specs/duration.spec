# ---- package duration: C15, C16 ----

pred dns(d) = d.Seconds*1000000000 + d.Nanoseconds
pred dnorm(d) = -1000000000 < d.Nanoseconds && d.Nanoseconds < 1000000000
  && (d.Seconds > 0 ==> d.Nanoseconds >= 0) && (d.Seconds < 0 ==> d.Nanoseconds <= 0)

func duration.New(d) (r)
  prop C15 C17
  ensures exact: dns(r) == d
  ensures normal: dnorm(r)

func (duration.Duration).AsGoDuration(d) (r)
  prop C15 C17
  ensures exact: dnorm(d) && inrange(dns(d), int64) ==> r == dns(d)

func duration.SinceEpoch(now) (r)
  prop C15 C17 C18
  ensures exact: dns(r) == tns(now)
  ensures normal: dnorm(r)

func (duration.Duration).AsGoTime(d) (t)
  prop C15 C17
  ensures exact: inrange(d.Seconds - 3, int64) && inrange(d.Seconds + 3, int64) ==> tns(t) == dns(d)

func (duration.Duration).IsNegative(d) (b)
  prop C15
  requires dnorm(d)
  ensures[C15] sign: b <==> dns(d) < 0

func (duration.Duration).convert(d, from, to) (r)
  prop C15
  requires dnorm(d)
  ensures[C15] normal: inrange(d.Seconds*1000 + 1000, int64) && inrange(d.Seconds*1000 - 1000, int64) ==> dnorm(r)
  ensures[C15] same: (from == units.Millisecond <==> to == units.Millisecond)
      && (from != units.Millisecond || inrange(d.Seconds*1000 + 1000, int64) && inrange(d.Seconds*1000 - 1000, int64)) ==> r == d
  ensures[C15] up: from != units.Millisecond && to == units.Millisecond && inrange(d.Seconds*1000 + 1000, int64) && inrange(d.Seconds*1000 - 1000, int64)
      ==> dns(r) == 1000 * dns(d)
  ensures[C15] down: from == units.Millisecond && to != units.Millisecond ==> dns(r) == dns(d) / 1000

func units.FromSecondsRational(u) (n, d)
  prop C15
  ensures[C15] n == ite(u == units.Millisecond, 1000, 1) && d == 1
