//go:build wcore

package h

import (
	"fmt"
	"time"
	_ "time/tzdata"

	"vsim/simrt"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func init() {
	Scenarios["C17"] = &Scenario{Gen: genTimes, Exec: execTimes}
}

var zones = []string{"UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "Pacific/Kiritimati", "Europe/London", "America/St_Johns", "Asia/Tokyo", "Australia/Lord_Howe", "America/Los_Angeles"}

var zoneLocs = map[string]*time.Location{}

func zone(i int) *time.Location {
	n := zones[i%len(zones)]
	l := zoneLocs[n]
	if l == nil {
		var err error
		l, err = time.LoadLocation(n)
		if err != nil {
			l = time.FixedZone(n, 3600*(i%12))
		}
		zoneLocs[n] = l
	}
	return l
}

// setLocal changes the host's time zone.
//
//go:norace
func setLocal(l *time.Location) { *time.Local = *l }

// host clocks: around year ends, daylight saving changes, the epoch, far away
var clocks = []string{"2020-06-15T12:30:00Z", "2020-03-08T06:59:59Z", "2020-11-01T05:30:00Z", "1999-12-31T23:59:59Z", "2020-02-29T00:00:00Z", "1970-01-01T00:00:00Z", "2037-12-31T23:59:59Z", "2200-01-01T00:00:00Z", "2021-03-28T00:59:59Z"}

func clockAt(i int) int64 {
	t, _ := time.Parse(time.RFC3339, clocks[i%len(clocks)])
	return t.UnixNano()
}

// days on which some zone sets its clocks
var oddDays = []struct {
	day  string
	zone int
}{{"2020-03-08", 1}, {"2020-11-01", 1}, {"2021-03-28", 5}, {"2021-10-31", 5}, {"2011-12-30", 3}, {"2020-04-05", 8}, {"2020-10-04", 8}, {"2020-03-08", 6}, {"2020-11-01", 9}}

func genInstant(r *Rng) time.Time {
	switch r.N(6) {
	case 0: // on the edges of days
		d, _ := time.Parse("2006-01-02", days[r.N(len(days))])
		return d.Add(time.Duration(r.Between(-2, 2)) * time.Second).Add(time.Duration(r.N(2)) * 24 * time.Hour)
	case 1: // around changes of daylight saving time
		t, _ := time.Parse(time.RFC3339, clocks[1+r.N(2)])
		return t.Add(time.Duration(r.Between(-7200, 7200)) * time.Second)
	case 2:
		return time.Unix(int64(r.Between(-5_000_000_000, 5_000_000_000)), 0).UTC()
	}
	d, _ := time.Parse(time.RFC3339, times[r.N(len(times))])
	return d.UTC().Add(time.Duration(r.Between(-1, 1)*r.PickI(0, 1, 60, 3600, 12*3600)) * time.Second)
}

func fmtInstant(r *Rng, t time.Time) string {
	off := r.PickI(0, 0, 3600, -3600, 19800, -18000, 50400, -43200, 20700)
	z := t.In(time.FixedZone("", off))
	switch r.N(12) {
	case 0, 1, 2:
		return z.Format(time.RFC3339)
	case 10, 11: // with the name of a zone
		return t.In(zone(r.N(len(zones)))).Format(r.Pick("2006-01-02 15:04:05 MST", time.RFC1123, time.UnixDate, time.RFC850, "2006-01-02 15:04:05 -0700 MST", "Mon Jan 2 2006 15:04:05 GMT-0700 (MST)"))
	case 3:
		return t.UTC().Format("2006-01-02 15:04:05")
	case 4:
		return t.UTC().Format("2006-01-02")
	case 5:
		return z.Format("2006-01-02 15:04:05 -0700")
	case 6:
		return t.UTC().Format(r.Pick("2006/01/02", "2006-01-02 15:04", "2006-01-02T15:04", "2006-01-02T15:04:05", "2006-01-02 15:04:05.000", "01/02/2006", "01/02/2006 15:04", "Jan 2, 2006", "2 Jan 2006 15:04:05", "20060102", "20060102150405", "2006-01-02 03:04:05 PM"))
	case 7:
		return z.Format(time.RFC1123Z)
	case 8:
		if s := t.Unix(); s > 1_000_000_000 && s < 1_999_999_999 {
			return fmt.Sprint(s)
		}
	case 9:
		if s := t.Unix(); s > 1_000_000_000 && s < 1_999_999_999 {
			return fmt.Sprint(s * 1000)
		}
	}
	return t.UTC().Format(time.RFC3339)
}

func genTimes(r *Rng, p *Plan) {
	nt := r.PickI(1, 2, 2, 3, 4)
	p.Kind = "times"
	p.P["zone"] = r.N(len(zones))
	p.P["clock"] = r.N(len(clocks))
	for i, n := 0, r.Between(1, 4); i < n; i++ {
		q := &Q{Field: []string{"ts"}, Op: r.Pick("eq", "eq", "eq", "lt", "lte", "gt", "gte", "bet")}
		lit := func(t time.Time) V {
			if r.Bool() {
				return V{"t", t.UTC().Format("2006-01-02")}
			}
			return V{"t", t.In(time.FixedZone("", r.PickI(0, 0, 7200, -10800, 19800))).Format(time.RFC3339)}
		}
		a := genInstant(r)
		q.Vals = []V{lit(a)}
		odd := r.P(25)
		if odd {
			o := oddDays[r.N(len(oddDays))]
			a, _ = time.Parse("2006-01-02", o.day)
			q.Vals = []V{{"t", o.day}}
			if r.P(70) {
				p.P["zone"] = o.zone
			}
		}
		if q.Op == "bet" {
			q.Vals = append(q.Vals, V{"t", a.Add(time.Duration(r.PickI(1, 2, 40)) * 36 * time.Hour).UTC().Format("2006-01-02")})
		}
		if r.P(20) {
			q = &Q{Op: "and", L: q, R: &Q{Op: "exists", Field: []string{"ts"}}}
		}
		if r.P(15) {
			q = &Q{Op: "not", L: q}
		}
		p.Queries = append(p.Queries, q)
		p.Texts = append(p.Texts, Bytes(q.Text(nil)))
		// documents close to the literal
		for k, m := 0, r.Between(1, 3); k < m; k++ {
			t := a.Add(time.Duration(r.Between(-3, 3)*r.PickI(0, 1, 1800, 3600, 6*3600, 24*3600)) * time.Second)
			if odd && r.P(75) { // close to the day's ends
				t = a.Add(time.Duration(r.N(2)*24)*time.Hour + time.Duration(r.Between(-7, 7))*15*time.Minute - time.Duration(r.N(2))*time.Second)
			}
			s := fmtInstant(r, t)
			d := fmt.Sprintf(`{"ts":%q}`, s)
			if len(s) == 10 && s[0] == '1' && r.Bool() && s[4] != '-' && s[4] != '/' {
				d = fmt.Sprintf(`{"ts":%s}`, s)
			}
			if r.P(15) {
				d = fmt.Sprintf(`{"ts":["no date",%q]}`, s)
			}
			p.Docs = append(p.Docs, Bytes(d))
		}
	}
	p.Docs = append(p.Docs, Bytes(fmt.Sprintf(`{"ts":%q}`, fmtInstant(r, genInstant(r)))))
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, r.Between(2, 10); i < n; i++ {
			switch r.N(8) {
			case 0:
				ops = append(ops, Op{K: "zone", N: []int{r.N(len(zones))}})
			case 1:
				ops = append(ops, Op{K: "clock", N: []int{r.N(len(clocks))}})
			case 2:
				ops = append(ops, Op{K: "new", N: []int{r.N(len(p.Texts)), r.N(len(p.Docs))}})
			case 3:
				ops = append(ops, Op{K: "sleep", N: []int{r.PickI(1, 3600, 86400, 40_000_000)}})
			default:
				ops = append(ops, Op{K: "match", N: []int{r.N(len(p.Texts)), r.N(len(p.Docs))}})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = genSched(r, nt)
}

func execTimes(c *Ctx, p *Plan) {
	time.Now().Zone() // the local zone is set up once
	for i := range zones {
		zone(i)
	}
	setLocal(zone(p.P["zone"]))
	defer setLocal(time.UTC)
	mr := &matchRun{c: c, p: p, parsed: map[string]*D{}, alone: map[string]bool{}}
	for _, t := range p.Texts {
		mr.texts = append(mr.texts, string(t))
	}
	mr.matchers = make([]*jsonmatcher.Matcher, len(mr.texts))
	all := make([][]obs, len(p.Tasks))
	ready := &simFlag{}
	var fns []func()
	for ti := range p.Tasks {
		ti := ti
		fns = append(fns, func() {
			if ti == 0 {
				mr.build()
				ready.set()
			}
			for !ready.get() {
				simrt.Block()
			}
			if c.Failed() {
				return
			}
			for i := range p.Tasks[ti] {
				op := &p.Tasks[ti][i]
				simrt.YS()
				switch op.K {
				case "zone":
					setLocal(zone(op.I(0)))
				case "clock":
					simrt.SetClock(clockAt(op.I(0)))
				case "sleep":
					simrt.Sleep(time.Duration(op.I(0)) * time.Second)
				case "match", "new":
					if op.I(0) >= len(p.Texts) || op.I(1) >= len(p.Docs) {
						continue
					}
					m := mr.matchers[op.I(0)]
					if op.K == "new" {
						var err error
						m, err = jsonmatcher.NewMatcher(mr.texts[op.I(0)])
						if err != nil {
							c.Fail("rejected", "valid query %q was rejected: %v", mr.texts[op.I(0)], err)
							return
						}
					}
					o := obs{op: op, m: op.I(0), d: op.I(1), doc: append([]byte(nil), p.Docs[op.I(1)]...), kind: op.K, n: 1}
					v, err := m.Match(o.doc)
					o.v = v
					if err != nil {
						o.err = err.Error()
					}
					all[ti] = append(all[ti], o)
				}
			}
		})
	}
	c.RunAt(fns, clockAt(p.P["clock"]))
	changes := 0
	for _, t := range p.Tasks {
		for _, o := range t {
			if o.K == "zone" || o.K == "clock" || o.K == "sleep" {
				c.FaultFired("host:"+o.K, 1)
				changes++
			}
		}
	}
	// the reference: the same calls on a host in UTC
	setLocal(time.UTC)
	for ti := range all {
		for i := range all[ti] {
			mr.checkMatch(ti, &all[ti][i])
			if c.Failed() {
				return
			}
		}
	}
}
