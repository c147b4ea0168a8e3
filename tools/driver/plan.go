package main

import "encoding/json"

// The driver's view of the worker's files; what it does not change is kept raw.

type switchT struct {
	Step uint64 `json:"s"`
	To   int32  `json:"t"`
}

type schedT struct {
	Seed   uint64    `json:"seed"`
	Mean   uint64    `json:"mean"`
	SyncP  uint64    `json:"syncp"`
	Stall  int       `json:"stall,omitempty"`
	StallA uint64    `json:"stalla,omitempty"`
	Hold   bool      `json:"hold,omitempty"`
	Replay bool      `json:"replay,omitempty"`
	Vol    []switchT `json:"vol,omitempty"`
	Forced []int32   `json:"forced,omitempty"`
	Cap    uint64    `json:"cap"`
}

type planT struct {
	Prop    string              `json:"prop"`
	Kind    string              `json:"kind"`
	Run     uint64              `json:"run"`
	P       map[string]int      `json:"p,omitempty"`
	Queries []json.RawMessage   `json:"queries,omitempty"`
	Texts   []json.RawMessage   `json:"texts,omitempty"`
	Docs    []json.RawMessage   `json:"docs,omitempty"`
	Tasks   [][]json.RawMessage `json:"tasks"`
	Faults  []json.RawMessage   `json:"faults,omitempty"`
	Sched   schedT              `json:"sched"`
	Env     uint64              `json:"env"`
}

func (p *planT) clone() *planT {
	b, _ := json.Marshal(p)
	var q planT
	json.Unmarshal(b, &q)
	return &q
}

func (p *planT) ops() int {
	n := 0
	for _, t := range p.Tasks {
		n += len(t)
	}
	return n
}

type jobT struct {
	Prop    string   `json:"prop"`
	Seed    uint64   `json:"seed"`
	History []uint64 `json:"history,omitempty"`
	From    uint64   `json:"from,omitempty"`
	Count   uint64   `json:"count,omitempty"`
	Plan    *planT   `json:"plan,omitempty"`
	Until   int64    `json:"until,omitempty"`
	GenOnly bool     `json:"genonly,omitempty"`
}

type violationT struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Index  int    `json:"index"`
	Plan   *planT `json:"plan"`
}

type resultT struct {
	Runs       int               `json:"runs"`
	Violation  *violationT       `json:"violation,omitempty"`
	Steps      uint64            `json:"steps"`
	Switches   uint64            `json:"switches"`
	SyncOps    uint64            `json:"sync_ops"`
	SimNanos   int64             `json:"sim_nanos"`
	Hashes     []uint64          `json:"hashes"`
	Nontrivial []uint64          `json:"nontrivial"`
	Counts     map[string]uint64 `json:"counts"`
	Faults     map[string]uint64 `json:"faults"`
	Samples    []string          `json:"samples,omitempty"`
	Races      int               `json:"races"`
	WallNs     int64             `json:"wall_ns"`
}

// replayT is a replay file.
type replayT struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Detail   string   `json:"detail"`
	Seed     uint64   `json:"seed"`
	History  []uint64 `json:"history,omitempty"`
	Plan     *planT   `json:"plan"`
	Note     string   `json:"note"`
	Original string   `json:"original,omitempty"`
	Command  string   `json:"command"`
}
