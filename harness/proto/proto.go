// Package proto is the line protocol between the driver and its workers.
package proto

type Fail struct {
	Phase string `json:"phase"`
	Index int64  `json:"index"`
	Msg   string `json:"msg"`
}

// Stats are measured per phase while it runs.
type Stats struct {
	Phase    string           `json:"phase"`
	Size     int64            `json:"size"`  // number of cases of the phase over all shards
	Cases    int64            `json:"cases"` // cases executed by this worker
	Words    int64            `json:"words"` // model states: distinct input words / nodes
	Steps    int64            `json:"steps"` // model transitions
	Runs     int64            `json:"runs"`  // implementation runs compared with the model
	Capped   string           `json:"capped,omitempty"`
	Samples  []string         `json:"samples,omitempty"`
	Outcomes []uint64         `json:"outcomes,omitempty"`
	Extra    map[string]int64 `json:"extra,omitempty"`
	Seconds  float64          `json:"seconds"`
}

type Line struct {
	Fail  *Fail  `json:"fail,omitempty"`
	Stats *Stats `json:"stats,omitempty"`
	Info  *Info  `json:"info,omitempty"`
	Done  bool   `json:"done,omitempty"`
}

// Info describes a check, sent once by each worker.
type Info struct {
	Rule        string   `json:"rule"`
	Assumptions []string `json:"assumptions"`
}
