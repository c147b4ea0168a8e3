package h

import (
	"encoding/base64"
	"encoding/json"
	"unicode/utf8"

	"vsim/simos"
	"vsim/simrt"
)

// Bytes is arbitrary data that stays readable in JSON when it is text.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	if utf8.Valid(b) {
		return json.Marshal(string(b))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString(b)})
}

func (b *Bytes) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err == nil {
		*b = Bytes(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(d, &m); err != nil {
		return err
	}
	x, err := base64.StdEncoding.DecodeString(m["b64"])
	*b = x
	return err
}

// Op is one operation of a simulated caller.
type Op struct {
	K string  `json:"k"`
	N []int   `json:"n,omitempty"`
	S []Bytes `json:"s,omitempty"`
}

func (o *Op) I(i int) int {
	if i < len(o.N) {
		return o.N[i]
	}
	return 0
}

func (o *Op) B(i int) []byte {
	if i < len(o.S) {
		return o.S[i]
	}
	return nil
}

// Plan is everything that determines a run.
type Plan struct {
	Prop    string         `json:"prop"`
	Kind    string         `json:"kind"`
	Run     uint64         `json:"run"`
	P       map[string]int `json:"p,omitempty"`
	Queries []*Q           `json:"queries,omitempty"`
	Texts   []Bytes        `json:"texts,omitempty"`
	Docs    []Bytes        `json:"docs,omitempty"`
	Tasks   [][]Op         `json:"tasks"`
	Faults  []*simos.Fault `json:"faults,omitempty"`
	Sched   simrt.Sched    `json:"sched"`
	Env     uint64         `json:"env"`
}

// Scenario generates and executes the runs of a property.
type Scenario struct {
	Gen  func(r *Rng, p *Plan)
	Exec func(c *Ctx, p *Plan)
	Race func(c *Ctx, report string) bool // which race reports violate the property (nil: none)
}

var Scenarios = map[string]*Scenario{}

// genSched draws how the run is scheduled.
func genSched(r *Rng, tasks int) simrt.Sched {
	s := simrt.Sched{Seed: r.U64(), Cap: 1_000_000_000}
	switch r.N(10) {
	case 0:
		s.Mean = 0
	case 1:
		s.Mean = 2
	case 2:
		s.Mean = 5
	case 3:
		s.Mean = 20
	case 4:
		s.Mean = 60
	case 5, 6:
		s.Mean = 250
	case 7:
		s.Mean = 1000
	default:
		s.Mean = 5000
	}
	s.SyncP = uint64(r.PickI(0, 10, 30, 50, 80))
	if s.Mean == 0 && s.SyncP == 0 {
		s.SyncP = 50
	}
	if tasks > 1 && r.P(25) {
		s.Stall = 1 + r.N(tasks)
		s.StallA = uint64(r.N(r.PickI(20, 200, 3000)))
	}
	return s
}
