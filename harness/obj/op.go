// Package obj executes operations of scenarios on real objects of the library and
// describes each call and its result as an event of a trace.
package obj

import (
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"

	"vp/trace"
)

// Op is an operation of a scenario.
type Op struct {
	Op   string `json:"op"`
	O    string `json:"o"`
	Kind string `json:"kind"`

	// construction parameters
	W      int          `json:"w"`
	K      int          `json:"k"`
	D      trace.Num    `json:"d"`
	Lag    int          `json:"lag"`
	Glob   bool         `json:"glob"`
	NoInit bool         `json:"noinit"`
	Opts   []Opt        `json:"opts"`
	OptRef string       `json:"optref"`
	Cmp    string       `json:"cmp"`
	Size   int          `json:"size"`
	Cfg    *Cfg         `json:"cfg"`
	CfgRef string       `json:"cfgref"`
	From   []CfgSrc     `json:"from"`
	Core   string       `json:"core"`
	Items  []string     `json:"items"`
	Mem    []string     `json:"members"`
	Mode   string       `json:"mode"`
	Mut    bool         `json:"mut"`
	Xs     trace.Vals   `json:"xs"`
	Xss    []trace.Vals `json:"xss"`
	Q      *trace.Num   `json:"q"`
	Ks     []int        `json:"ks"`
	I      int          `json:"i"`
	Unsafe bool         `json:"unsafe"`
	Item   string       `json:"item"`
	Os     []string     `json:"os"`
	X      trace.Num    `json:"x"`
	Spare  int          `json:"spare"`
	Ops    []Op         `json:"ops"`
}

// Opt is an option of a quantile metric or a skip list.
type Opt struct {
	T     string    `json:"t"` // impl, interp, max, p, rand
	V     int       `json:"v"`
	P     trace.Num `json:"p"`
	Sopts []Opt     `json:"sopts"`
	// what the random source yields
	Script []float64 `json:"script"`
}

// Cfg is a core configuration; fields may be unset.
type Cfg struct {
	Dom    string     `json:"dom"` // moment, joint
	Sums   [][]int    `json:"sums"`
	NoSums bool       `json:"nosums"`
	W      *int       `json:"w"`
	Vars   *int       `json:"vars"`
	D      *trace.Num `json:"d"`
}

// CfgSrc is a source of a configuration to merge.
type CfgSrc struct {
	Cfg    *Cfg   `json:"cfg"`
	CfgRef string `json:"cfgref"`
	O      string `json:"o"` // a metric
}

// Config is a real configuration.
type Config struct {
	dom string
	m   *moment.CoreConfig
	j   *joint.CoreConfig
}

func (c *Cfg) build() *Config {
	var w, vars *int
	var d *float64
	if c.W != nil {
		v := *c.W
		w = &v
	}
	if c.Vars != nil {
		v := *c.Vars
		vars = &v
	}
	if c.D != nil {
		v := float64(*c.D)
		d = &v
	}
	if c.Dom == "moment" {
		res := &moment.CoreConfig{Window: w, Decay: d}
		if !c.NoSums {
			res.Sums = moment.SumsConfig{}
			for _, t := range c.Sums {
				res.Sums[t[0]] = true
			}
		}
		return &Config{dom: "moment", m: res}
	}
	res := &joint.CoreConfig{Window: w, Decay: d, Vars: vars}
	if !c.NoSums {
		res.Sums = joint.SumsConfig{}
		for _, t := range c.Sums {
			res.Sums = append(res.Sums, append(joint.Tuple{}, t...))
		}
	}
	return &Config{dom: "joint", j: res}
}

func optInt(p *int) trace.Rec {
	if p == nil {
		return trace.Rec{"set": false, "v": 0}
	}
	return trace.Rec{"set": true, "v": *p}
}

func optNum(p *float64) trace.Rec {
	if p == nil {
		return trace.Rec{"set": false, "v": trace.NumRec(0)}
	}
	return trace.Rec{"set": true, "v": trace.NumRec(*p)}
}

// rec describes the current contents of the configuration.
func (c *Config) rec() trace.Rec {
	sums := [][]int{}
	if c.dom == "moment" {
		for k := range c.m.Sums {
			sums = append(sums, []int{k})
		}
		return trace.Rec{
			"dom": "moment", "sums": sums, "w": optInt(c.m.Window),
			"vars": optInt(nil), "d": optNum(c.m.Decay),
		}
	}
	for _, t := range c.j.Sums {
		sums = append(sums, append([]int{}, t...))
	}
	return trace.Rec{
		"dom": "joint", "sums": sums, "w": optInt(c.j.Window),
		"vars": optInt(c.j.Vars), "d": optNum(c.j.Decay),
	}
}

// scramble changes everything reachable from the configuration.
func (c *Config) scramble() {
	if c.dom == "moment" {
		for k := range c.m.Sums {
			delete(c.m.Sums, k)
		}
		if c.m.Sums != nil {
			c.m.Sums[1] = true
			c.m.Sums[-3] = true
		}
		if c.m.Window != nil {
			*c.m.Window += 7
		}
		if c.m.Decay != nil {
			*c.m.Decay = 0.999
		}
		c.m.Sums, c.m.Window, c.m.Decay = nil, nil, nil
		return
	}
	for _, t := range c.j.Sums {
		for i := range t {
			t[i] = 0
		}
	}
	for i := range c.j.Sums {
		c.j.Sums[i] = joint.Tuple{9, 9, 9}
	}
	if c.j.Window != nil {
		*c.j.Window += 7
	}
	if c.j.Vars != nil {
		*c.j.Vars += 2
	}
	if c.j.Decay != nil {
		*c.j.Decay = 0.999
	}
	c.j.Sums, c.j.Window, c.j.Vars, c.j.Decay = nil, nil, nil, nil
}
