package wsim

import (
	"bytes"
	"fmt"
	"net/http"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Classes of mismatch: the event classes (E order of handlers, P dispatch,
// S response state, V store and cookies, I identity, B body, D binding, Q form,
// U upload, R helper results, M other values) and
//
//	T status line, h headers, c content, k completeness of the response,
//	s superfluous status lines, w output after hijack, L access log,
//	F open files, X escaped panic, H stopped progress, G races
func compare(r, m *Rec, faultless func() *Rec) []Mismatch {
	var out []Mismatch
	add := func(class, format string, a ...any) {
		out = append(out, Mismatch{Class: class, Detail: fmt.Sprintf(format, a...)})
	}
	if r.Opens != r.Closes {
		add("F", "%d files opened, %d closed", r.Opens, r.Closes)
	}
	if r.BadUse != "" {
		add("F", "%s", r.BadUse)
	}
	if r.RW.Late > 0 {
		add("s", "response used after the request ended")
	}
	if r.fileReadFault {
		exact := compareRest(r, m)
		if len(exact) == 0 {
			return out
		}
		// a file failed while it was served: refusing is as good as what the
		// model did, other bytes are not
		if r.Escaped {
			add("X", "panic reached the server: %s", r.EscapeVal)
			return out
		}
		w := r.RW
		if w.Status >= 400 || !w.Complete(false) {
			return out
		}
		f := faultless()
		if w.Status != f.RW.Status || !bytes.Equal(body(r), body(f)) {
			add("c", "a file failed while served, the client got a complete response with status %d, body %s; the file's is %d, %s", w.Status, digest(w.Body), f.RW.Status, digest(f.RW.Body))
		}
		return out
	}
	return append(out, compareRest(r, m)...)
}

func compareRest(r, m *Rec) []Mismatch {
	var out []Mismatch
	add := func(class, format string, a ...any) {
		out = append(out, Mismatch{Class: class, Detail: fmt.Sprintf(format, a...)})
	}
	// the history of the handlers
	n := len(r.Trace)
	if len(m.Trace) < n {
		n = len(m.Trace)
	}
	diff := false
	for i := 0; i < n; i++ {
		a, b := r.Trace[i], m.Trace[i]
		if sameEv(a, b) {
			continue
		}
		k := b.K
		if a.K != b.K && (a.K == "E" || b.K == "E" || a.K == "I") {
			k = "E"
			if a.K == "I" {
				k = "I"
			}
		}
		add(k, "step %d: %s %s, expected %s %s", i, a.K, a.V, b.K, b.V)
		diff = true
		if a.K != b.K {
			break
		}
	}
	if !diff && len(r.Trace) != len(m.Trace) {
		switch {
		case len(r.Trace) > n:
			add(r.Trace[n].K, "step %d: unexpected %s %s", n, r.Trace[n].K, r.Trace[n].V)
		default:
			add(m.Trace[n].K, "step %d: missing %s %s", n, m.Trace[n].K, m.Trace[n].V)
		}
		diff = true
	}
	if r.Escaped != m.Escaped {
		if r.Escaped {
			add("X", "panic reached the server: %s", r.EscapeVal)
		} else {
			add("X", "panic %q did not reach the server", m.EscapeVal)
		}
	}
	a, b := r.RW, m.RW
	if a.Hijacked != b.Hijacked || !bytes.Equal(a.HijackData.Bytes(), b.HijackData.Bytes()) {
		add("w", "hijacked=%v data=%q, expected %v %q", a.Hijacked, a.HijackData.Bytes(), b.Hijacked, b.HijackData.Bytes())
	}
	if a.AfterHijack != b.AfterHijack {
		add("w", "%d status lines after hijack, expected %d", a.AfterHijack, b.AfterHijack)
	}
	// in how many pieces a handler's own content is offered does not matter
	if (a.WritesAfter > 0) != (b.WritesAfter > 0) && !m.devPanic {
		add("w", "%d writes after hijack, expected %d", a.WritesAfter, b.WritesAfter)
	}
	if a.Superfluous != b.Superfluous {
		add("s", "%d superfluous status lines, expected %d", a.Superfluous, b.Superfluous)
	}
	if a.Status != b.Status {
		add("T", "status %d, expected %d", a.Status, b.Status)
	}
	if x, y := fmt.Sprint(a.Info), fmt.Sprint(b.Info); x != y {
		add("T", "informational responses %s, expected %s", x, y)
	}
	if a.Flushes != b.Flushes || !m.devPanic && fmt.Sprint(a.FlushedAt) != fmt.Sprint(b.FlushedAt) {
		add("S", "flushes %v, expected %v", a.FlushedAt, b.FlushedAt)
	}
	ha, hb := hdrLines(a.Snap, r), hdrLines(b.Snap, m)
	if m.devPanic {
		ha, hb = dropCT(ha), dropCT(hb)
		if want := b.Body[:m.devOff]; !bytes.HasPrefix(a.Body, want) {
			add("c", "content %s does not start with %s", digest(a.Body), digest(want))
		}
	} else {
		if !bytes.Equal(body(r), body(m)) {
			d := fmt.Sprintf("content %s, expected %s", digest(a.Body), digest(b.Body))
			if r.C.Global.Stable && bytes.Contains(a.Body, []byte(panicMark)) && !bytes.Contains(b.Body, []byte(panicMark)) {
				d = "panic text sent in stable mode: " + d
			}
			add("c", "%s", d)
		}
		if ca, cb := a.Complete(r.Escaped), b.Complete(m.Escaped); ca != cb && r.Escaped == m.Escaped {
			add("k", "complete=%v, expected %v", ca, cb)
		}
	}
	if d := listDiff(ha, hb); d != "" {
		add("h", "headers differ: %s", d)
	}
	out = append(out, compareLogs(r, m)...)
	return out
}

func sameEv(a, b Ev) bool {
	if b.V == "*" {
		return a.K == b.K
	}
	if a.K != b.K {
		return false
	}
	if a.V == b.V {
		return true
	}
	for _, alt := range b.A {
		if a.V == alt {
			return true
		}
	}
	return false
}

var boundaryRE = regexp.MustCompile(`boundary=([0-9a-f]{40,})`)

func boundary(h http.Header) string {
	if f := boundaryRE.FindStringSubmatch(h.Get("Content-Type")); f != nil && strings.HasPrefix(h.Get("Content-Type"), "multipart/byteranges") {
		return f[1]
	}
	return ""
}

func body(r *Rec) []byte {
	if b := boundary(r.RW.Snap); b != "" {
		out := bytes.ReplaceAll(r.RW.Body, []byte(b), []byte("BOUNDARY"))
		return bytes.ReplaceAll(out, []byte(strings.ToUpper(b)), []byte("BOUNDARY"))
	}
	return r.RW.Body
}

// hdrLines is the header as the client gets it: empty values carry nothing.
func hdrLines(h http.Header, r *Rec) []string {
	b := boundary(h)
	var out []string
	for k, vs := range h {
		for _, v := range vs {
			if v == "" {
				continue
			}
			if b != "" {
				v = strings.ReplaceAll(v, b, "BOUNDARY")
			}
			out = append(out, k+": "+v)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return strings.SplitN(out[i], ":", 2)[0] < strings.SplitN(out[j], ":", 2)[0] })
	return out
}

func dropCT(l []string) (out []string) {
	for _, s := range l {
		if !strings.HasPrefix(s, "Content-Type:") && !strings.HasPrefix(s, "X-Content-Type-Options:") {
			out = append(out, s)
		}
	}
	return
}

func listDiff(a, b []string) string {
	have := map[string]int{}
	for _, s := range a {
		have[s]++
	}
	var miss, extra []string
	for _, s := range b {
		if have[s] == 0 {
			miss = append(miss, s)
		} else {
			have[s]--
		}
	}
	for _, s := range a {
		if have[s] > 0 {
			have[s]--
			extra = append(extra, s)
		}
	}
	if len(miss)+len(extra) == 0 {
		// the order of the values of one name matters (cookies)
		if strings.Join(a, "\n") != strings.Join(b, "\n") {
			return fmt.Sprintf("order %q, expected %q", a, b)
		}
		return ""
	}
	return fmt.Sprintf("unexpected %q, missing %q", extra, miss)
}

// --- access log ---

var ansiRE = regexp.MustCompile("\x1b\\[[0-9;]*m")
var accessRE = regexp.MustCompile(`(?s)^\[ water : (.*?) \] (\S+ \S+) \| +(-?\d+) +\| +(\S+) \| +(\S*) \| +(\S+) (.*)$`)

type gotLog struct {
	trace, when, ip, method, rest string
	status                        int
	dur                           time.Duration
	raw                           string
	at                            int64
}

func accessRecords(r *Rec) (out []gotLog, bad []string) {
	for _, l := range r.Logs {
		msg := l.Msg
		if len(msg) >= 4 && msg[0] == '[' && msg[2] == ']' {
			msg = msg[4:]
		}
		if !strings.HasPrefix(msg, "[ water :") {
			continue
		}
		// the layout ends where the (unmodified) body begins
		head, tail := msg, ""
		if i := strings.Index(msg, "\n"); i >= 0 {
			head, tail = msg[:i], msg[i:]
		}
		f := accessRE.FindStringSubmatch(ansiRE.ReplaceAllString(head, "") + tail)
		if f == nil {
			bad = append(bad, msg)
			continue
		}
		g := gotLog{trace: f[1], when: f[2], ip: f[5], method: f[6], rest: f[7], raw: msg, at: l.At}
		fmt.Sscan(f[3], &g.status)
		d, err := time.ParseDuration(f[4])
		if err != nil {
			bad = append(bad, msg)
			continue
		}
		g.dur = d
		out = append(out, g)
	}
	return
}

func compareLogs(r, m *Rec) []Mismatch {
	var out []Mismatch
	add := func(format string, a ...any) {
		out = append(out, Mismatch{Class: "L", Detail: fmt.Sprintf(format, a...)})
	}
	got, bad := accessRecords(r)
	for _, b := range bad {
		add("unreadable access record %q", b)
	}
	if len(got) != len(m.logWant) {
		add("%d access records, expected %d", len(got), len(m.logWant))
		return out
	}
	for i, w := range m.logWant {
		g := got[i]
		if g.trace != w.Trace || g.ip != w.IP || g.method != w.Method {
			add("access record %.200q is not of %s %s from %s trace %s", g.raw, w.Method, w.URL, w.IP, w.Trace)
			continue
		}
		rest, ok := strings.CutPrefix(g.rest, w.URL)
		want := ""
		if w.Body != "" {
			want = "\n" + w.Body
		}
		if !ok {
			add("access record %.200q does not carry %s", g.raw, w.URL)
		} else if rest == "\n" {
			rest = ""
		}
		if ok && rest != want {
			if !w.BodyPrefix || !(strings.HasPrefix(rest, want) || strings.HasPrefix(want, rest)) {
				add("access record carries body %.60q (%d bytes), expected %.60q (%d bytes)", rest, len(rest), want, len(want))
			}
		}
		if w.StatusKnown && g.status != w.Status {
			add("access record says status %d, sent was %d", g.status, w.Status)
		}
		if Degraded {
			continue
		}
		if g.dur < 0 {
			add("negative duration %v", g.dur)
		}
		if total := r.End - r.Start; int64(g.dur) > total {
			add("duration %v, but the whole request took %v", g.dur, time.Duration(total))
		}
		if w.First >= 0 && w.Last < len(r.times) {
			lo := r.times[w.Last] - r.times[w.First]
			if int64(g.dur) < lo {
				add("duration %v, but handlers %q..%q took %v", g.dur, r.Trace[w.First].V, r.Trace[w.Last].V, time.Duration(lo))
			}
		}
		if b := r.Body; w.Reads && b != nil && b.t0 > 0 && w.First >= 0 && w.Last < len(r.times) {
			if lo := r.times[w.Last] - b.t0; int64(g.dur) < lo {
				add("duration %v, but reading the body and handling the request took %v", g.dur, time.Duration(lo))
			}
		}
		ts := epoch.Add(time.Duration(r.WallLo)).Truncate(time.Second)
		te := epoch.Add(time.Duration(r.WallHi))
		if t, err := time.ParseInLocation("2006-01-02 15:04:05", g.when, time.Local); err == nil && (t.Before(ts) || t.After(te)) {
			add("access record dated %s, request ran from %s to %s", g.when, ts, te)
		}
	}
	return out
}
