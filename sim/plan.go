package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"unicode/utf8"
)

// Plan is one simulated execution: together with the code it decides
// everything. It is also the replay file.
type Plan struct {
	Property    string     `json:"property"`
	Profile     string     `json:"profile"`
	Seed        uint64     `json:"seed"`
	HorizonMS   int64      `json:"horizon_ms"`
	SettleMS    int64      `json:"settle_ms"`
	Sched       SchedKnobs `json:"sched"`
	Latency     []int64    `json:"latency"`
	MaxSeg      int        `json:"max_seg,omitempty"`
	Window      int        `json:"window,omitempty"` // bytes a connection holds that nobody has read
	Clusters    []string   `json:"clusters"`
	Mode        string     `json:"mode,omitempty"`          // how ckube finds its clusters
	Bases       []string   `json:"bases,omitempty"`         // paths under which the API servers are found
	RV0         int64      `json:"rv0,omitempty"`           // where resource versions start
	WatchLimitS int64      `json:"watch_limit_s,omitempty"` // when API servers end watches, 0 for 40 minutes
	Labels      string     `json:"labels,omitempty"`        // bare: objects may have none; large: numbers in them are
	Linked      bool       `json:"linked,omitempty"`        // the configuration is in volumes from the start
	Scrape      []int64    `json:"scrape,omitempty"`        // how long gathering metrics takes
	Confs       []Conf     `json:"confs"`
	Init        []Step     `json:"init"`
	Steps       []Step     `json:"steps"`
	Param       []int64    `json:"param,omitempty"`
	GenSeed     uint64     `json:"gen_seed,omitempty"` // what it was drawn from
	RecordActs  bool       `json:"record_acts,omitempty"`
	Verbose     bool       `json:"verbose,omitempty"`

	// filled in by the search for the replay file
	Expect *Violation `json:"expect,omitempty"`
}

// SchedKnobs steer the scheduler.
type SchedKnobs struct {
	Pick      int        `json:"pick"`      // 0 FIFO, 1 uniform, 2 priorities
	MapProb   int        `json:"map_prob"`  // map-write preemption, of 65536
	Preempt   int        `json:"preempt"`   // per yield point, of 65536
	SiteMask  int        `json:"site_mask"` // fraction of yield points that act
	Stall     int        `json:"stall"`     // per yield point, of 1<<20
	MaxStalls int        `json:"max_stalls"`
	StallMS   []int64    `json:"stall_ms,omitempty"`
	Hot       [][2]int64 `json:"hot,omitempty"`       // windows (ms) in which HotStall applies
	HotStall  int        `json:"hot_stall,omitempty"` // per yield point, of 1<<20
	HotRare   int        `json:"hot_rare,omitempty"`  // the same for goroutines older than the window (0: like others)
	HotMax    int        `json:"hot_max,omitempty"`
	HotMS     []int64    `json:"hot_ms,omitempty"`
	Acts      [][2]int64 `json:"acts,omitempty"`
	UseActs   bool       `json:"use_acts,omitempty"`
}

// Conf is one generation of ckube's configuration.
type Conf struct {
	Res      []int  `json:"res"`      // cached resource types
	Idx      int    `json:"idx"`      // index variant
	Clusters []int  `json:"clusters"` // contexts in the kubeconfig
	Default  int    `json:"default"`  // current-context
	Token    string `json:"token,omitempty"`
	Dup      int    `json:"dup,omitempty"`   // so many types are listed twice
	Bad      string `json:"bad,omitempty"`   // damage done to config.json
	KBad     string `json:"kbad,omitempty"`  // damage done to the kubeconfig
	Moved    []int  `json:"moved,omitempty"` // clusters that are at their other address
}

// Step is one thing that happens.
type Step struct {
	ID   int     `json:"id"`
	At   int64   `json:"at"`
	Who  string  `json:"who,omitempty"` // steps of one actor run one after another
	K    string  `json:"k"`
	C    int     `json:"c,omitempty"` // cluster
	R    int     `json:"r,omitempty"` // resource type
	NS   string  `json:"ns,omitempty"`
	Name string  `json:"name,omitempty"`
	V    uint64  `json:"v,omitempty"` // content seed
	S    string  `json:"s,omitempty"`
	N    int64   `json:"n,omitempty"`
	M    int64   `json:"m,omitempty"`
	D    int64   `json:"d,omitempty"` // duration
	Q    *QSpec  `json:"q,omitempty"`
	H    *HTTPRq `json:"h,omitempty"`
	Cs   []int   `json:"cs,omitempty"`   // further clusters named
	Auth string  `json:"auth,omitempty"` // how the token is presented
	AGen int     `json:"agen,omitempty"` // configuration the token is from
	X    string  `json:"x,omitempty"`    // further query parameters of a watch
	Hold int64   `json:"hold,omitempty"` // wait so long (ms) for an old goroutine to be held
}

// QSpec is a list query.
type QSpec struct {
	Clusters   []int    `json:"clusters,omitempty"`
	AllCl      bool     `json:"all,omitempty"`
	Namespaces []string `json:"nss,omitempty"`
	Parts      []string `json:"parts,omitempty"`
	Sort       string   `json:"sort,omitempty"`
	Page       int64    `json:"page,omitempty"`
	Size       int64    `json:"size,omitempty"`
	Labels     string   `json:"labels,omitempty"` // native label selector
	Eq         bool     `json:"eq,omitempty"`     // its one cluster is named by an equality requirement
}

// HTTPRq is a raw request.
type HTTPRq struct {
	Method string            `json:"m"`
	Path   string            `json:"p"`
	Query  string            `json:"q,omitempty"`
	Body   string            `json:"b,omitempty"`
	Header map[string]string `json:"h,omitempty"`
}

// Bytes that are no UTF-8 would not survive JSON.
const b64Mark = "b64!"

func (h HTTPRq) MarshalJSON() ([]byte, error) {
	type plain HTTPRq
	enc := func(s *string) {
		if !utf8.ValidString(*s) || strings.HasPrefix(*s, b64Mark) {
			*s = b64Mark + base64.StdEncoding.EncodeToString([]byte(*s))
		}
	}
	p := plain(h)
	enc(&p.Path)
	enc(&p.Query)
	enc(&p.Body)
	return json.Marshal(p)
}

func (h *HTTPRq) UnmarshalJSON(bs []byte) error {
	type plain HTTPRq
	p := plain{}
	if err := json.Unmarshal(bs, &p); err != nil {
		return err
	}
	for _, s := range []*string{&p.Path, &p.Query, &p.Body} {
		if strings.HasPrefix(*s, b64Mark) {
			b, err := base64.StdEncoding.DecodeString((*s)[len(b64Mark):])
			if err != nil {
				return err
			}
			*s = string(b)
		}
	}
	*h = HTTPRq(p)
	return nil
}

func loadPlan(path string) *Plan {
	bs, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	p := decodePlan(bs)
	// The process must have the same past as one that draws the plan itself:
	// what it has done once may not be done again (caches of encoding/json).
	seededPlan(p.Property, p.GenSeed)
	return p
}

// seededPlan draws a plan and takes it through the form it has in a file.
func seededPlan(prop string, seed uint64) *Plan {
	bs, err := json.Marshal(genPlan(prop, seed))
	if err != nil {
		harnessFail("plan: %v", err)
	}
	return decodePlan(bs)
}

func decodePlan(bs []byte) *Plan {
	p := &Plan{}
	if err := json.Unmarshal(bs, p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return p
}

func (p *Plan) base(i int) string {
	if i < len(p.Bases) {
		return p.Bases[i]
	}
	return ""
}
