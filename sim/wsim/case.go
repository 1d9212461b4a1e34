// Package wsim is the simulated world around the water framework: clients,
// connections, bodies, disks, log sink and the workload they carry; the
// reference model the outcome of every request is compared with; and the
// search for schedules and faults under which the two differ.
package wsim

import (
	"bytes"

	"watersim/simrt"
)

// Case is one simulated run, completely.
type Case struct {
	Profile   string         `json:"profile"`
	Seed      uint64         `json:"seed"`
	Global    Global         `json:"global"`
	Routers   []RouterSpec   `json:"routers"`
	Engines   []EngineSpec   `json:"engines"`
	Files     []FileSpec     `json:"files,omitempty"`
	Trees     []TreeSpec     `json:"trees,omitempty"`
	Clients   []Client       `json:"clients"`
	Waves     []uint64       `json:"waves,omitempty"` // seeds of waves of further clients (see waves.go)
	Pol       simrt.Policy   `json:"policy"`
	SchedSeed uint64         `json:"sched_seed"`
	Replay    bool           `json:"replay,omitempty"` // follow Switches instead of the policy
	Switches  []simrt.Switch `json:"switches,omitempty"`
}

type Global struct {
	Stable      bool `json:"stable"`
	LogClose    bool `json:"log_close,omitempty"`
	LogColor    bool `json:"log_color,omitempty"`
	LogHTTPBody bool `json:"log_body"`
	Render      bool `json:"render,omitempty"` // custom HTML renderer installed
	Zone        int  `json:"zone,omitempty"`   // minutes by which local time differs from UTC
}

type CORSSpec struct {
	Origins     []string `json:"origins,omitempty"`
	Methods     []string `json:"methods,omitempty"`
	Headers     []string `json:"headers,omitempty"`
	Credentials bool     `json:"credentials,omitempty"`
	Expose      []string `json:"expose,omitempty"`
	MaxAge      int      `json:"max_age,omitempty"`
}

// H is one handler. Kind: fn, hf (HandlerFunc), iface (water.Handler), std
// (http.Handler), stdfn, logger, recovery, cors, mount (another engine).
type H struct {
	ID      string    `json:"id"`
	Kind    string    `json:"kind"`
	Cors    *CORSSpec `json:"cors,omitempty"`
	Default []Op      `json:"default,omitempty"` // script when the request has none for this handler
	Mount   int       `json:"mount,omitempty"`   // kind mount: the engine
}

type Decl struct {
	Use    []H         `json:"use,omitempty"`
	Group  *GroupDecl  `json:"group,omitempty"`
	Route  *RouteDecl  `json:"route,omitempty"`
	Static *StaticDecl `json:"static,omitempty"`
	SFile  *SFileDecl  `json:"sfile,omitempty"`
}

type GroupDecl struct {
	Pattern string `json:"pattern"`
	Mws     []H    `json:"mws,omitempty"` // handed to Group itself
	Via     string `json:"via"`           // "fn": declared in a func(*Router), "ret": on the returned router
	Items   []Decl `json:"items"`
}

type RouteDecl struct {
	Method   string `json:"method"` // GET.. or ANY
	Pattern  string `json:"pattern"`
	Handlers []H    `json:"handlers"`
}

type StaticDecl struct {
	Prefix  string `json:"prefix"`
	Index   string `json:"index,omitempty"`
	ETag    int    `json:"etag,omitempty"`
	Expires string `json:"expires,omitempty"` // the fault "expires" of a request makes it panic
	Tree    int    `json:"tree"`
	Simple  bool   `json:"simple,omitempty"` // Router.Static on a real directory
	ID      string `json:"id"`
}

type SFileDecl struct {
	Pattern string `json:"pattern"`
	File    string `json:"file"`
	ID      string `json:"id"`
}

type RouterSpec struct {
	Classic bool   `json:"classic,omitempty"`
	Before  []H    `json:"before,omitempty"`
	Items   []Decl `json:"items"`
}

type EngineSpec struct {
	Router  int    `json:"router"`
	Static  bool   `json:"static,omitempty"`
	NoFound []H    `json:"nofound,omitempty"`
	Mem     *int64 `json:"mem,omitempty"`
	Late    bool   `json:"late,omitempty"`   // built by a client while others serve
	OptOf   int    `json:"opt_of,omitempty"` // >0: built with the very Option values of engine OptOf-1
	Extra   []Decl `json:"extra,omitempty"`  // declared on the router right before this engine is built
}

// FileSpec is a real file in the run's scratch directory.
type FileSpec struct {
	Name string `json:"name"`
	Data []byte `json:"data,omitempty"`
	Dir  bool   `json:"dir,omitempty"`
	Mod  int64  `json:"mod,omitempty"`
}

// TreeSpec is a simulated http.FileSystem; every file has versions, a request
// sees the version in force when it is sent.
type TreeSpec struct {
	Files  []TreeFile `json:"files"`
	Strict bool       `json:"strict,omitempty"` // knows clean rooted names only, as http.FS does
}

type TreeFile struct {
	Path string    `json:"path"`
	Dir  bool      `json:"dir,omitempty"`
	Vers []TreeVer `json:"vers,omitempty"`
}

type TreeVer struct {
	Data []byte `json:"data"`
	Mod  int64  `json:"mod"`
	Gone bool   `json:"gone,omitempty"`
}

type Client struct {
	Items []Item `json:"items"`
}

// Item: one of building an engine or sending a request.
type Item struct {
	Build *int `json:"build,omitempty"`
	Req   *Req `json:"req,omitempty"`
}

type BodySpec struct {
	Data     []byte `json:"data"`
	Frags    []int  `json:"frags,omitempty"` // sizes of successive reads, cyclic
	FailAt   int    `json:"fail_at"`         // offset of the failure, -1 none
	FailKind string `json:"fail_kind,omitempty"`
	ZeroRead bool   `json:"zero_read,omitempty"` // some reads return (0, nil)
	EOFWith  bool   `json:"eof_with,omitempty"`  // the last data arrives together with io.EOF
	StallAt  int    `json:"stall_at,omitempty"`  // >0: the client stalls before this offset
	Slow     int    `json:"slow,omitempty"`      // microseconds a read takes
	Chunked  bool   `json:"chunked,omitempty"`   // no declared length
	CloseErr bool   `json:"close_err,omitempty"`
	Big      int    `json:"big,omitempty"` // >0: a multipart body with one file of this size, made when needed
	Pad      int    `json:"pad,omitempty"` // blanks before the data
	big      []byte
}

// Bytes is what the client means to send.
func (b *BodySpec) Bytes() []byte {
	if b.Big == 0 && b.Pad == 0 {
		return b.Data
	}
	if b.big == nil && b.Pad > 0 {
		b.big = append(bytes.Repeat([]byte(" "), b.Pad), b.Data...)
	}
	if b.big == nil {
		var sb bytes.Buffer
		sb.WriteString("--XbX\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nfirst\r\n")
		sb.WriteString("--XbX\r\nContent-Disposition: form-data; name=\"file\"; filename=\"big.bin\"\r\nContent-Type: application/octet-stream\r\n\r\n")
		line := []byte("0123456789abcdef0123456789ABCDEF0123456789abcdef0123456789ABCDE\n")
		for n := b.Big; n > 0; n -= len(line) {
			if n < len(line) {
				line = line[:n]
			}
			sb.Write(line)
		}
		sb.WriteString("\r\n--XbX--\r\n")
		b.big = sb.Bytes()
	}
	return b.big
}

// forget gives the memory back when a run is over.
func (c *Case) forget() {
	for i := range c.Clients {
		for _, it := range c.Clients[i].Items {
			if it.Req != nil && it.Req.Body != nil {
				it.Req.Body.big = nil
			}
		}
	}
}

type ConnSpec struct {
	FailAt   int    `json:"fail_at"` // body bytes accepted before the connection dies, -1 never
	FailKind string `json:"fail_kind,omitempty"`
	OneShort bool   `json:"one_short,omitempty"`
	PanicAt  int    `json:"panic_at,omitempty"` // >0: the write crossing this offset panics, once
	StallAt  int    `json:"stall_at,omitempty"` // >0: the client stalls at this offset
	NoHijack bool   `json:"no_hijack,omitempty"`
}

// Fault concerns one file: Op open, stat, seek, read, write, close, sync.
type Fault struct {
	Op   string `json:"op"`
	Path string `json:"path"` // suffix of the path
	At   int64  `json:"at,omitempty"`
	Err  string `json:"err"`
}

type Req struct {
	ID      int             `json:"id"`
	Engine  int             `json:"engine"`
	Method  string          `json:"method"`
	URL     string          `json:"url"`
	Proto   string          `json:"proto,omitempty"`
	RawURI  string          `json:"raw_uri,omitempty"`
	Strip   bool            `json:"strip,omitempty"` // an outer mux removed the leading slash
	Headers [][2]string     `json:"headers,omitempty"`
	Remote  string          `json:"remote,omitempty"`
	Trace   string          `json:"trace,omitempty"` // its trace id; "": made of the number, "-": none
	Body    *BodySpec       `json:"body,omitempty"`
	Conn    ConnSpec        `json:"conn"`
	Faults  []Fault         `json:"faults,omitempty"`
	Ver     int             `json:"ver,omitempty"`
	Age     int             `json:"age,omitempty"` // seconds by which the files were touched since
	Log     string          `json:"log,omitempty"` // "", error, stall, slow
	Scripts map[string][]Op `json:"scripts,omitempty"`
}

// Op is one step of a handler.
type Op struct {
	Op string   `json:"op"`
	S  string   `json:"s,omitempty"`
	S2 string   `json:"s2,omitempty"`
	S3 string   `json:"s3,omitempty"`
	N  int      `json:"n,omitempty"`
	M  int      `json:"m,omitempty"`
	B  []byte   `json:"b,omitempty"`
	L  []int    `json:"l,omitempty"`
	V  *Payload `json:"v,omitempty"`
	K  string   `json:"k,omitempty"` // json, xml: what kind of value
}

// Payload is what JSON and XML responses carry.
type Payload struct {
	XMLName struct{} `json:"-" xml:"payload"`
	Name    string   `json:"name" xml:"name"`
	N       int      `json:"n" xml:"n"`
	Tags    []string `json:"tags" xml:"tags>tag"`
}

// Ev is one step of the observed or expected history of a request.
type Ev struct {
	K string   // class of the observation
	V string   // value
	A []string // model only: other acceptable values
}
