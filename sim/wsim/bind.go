package wsim

import (
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"mime/multipart"
	"net/http"
	"net/textproto"
	"sort"
	"strconv"
	"strings"
	"time"
	_ "time/tzdata"

	"github.com/meilihao/water/binding"
)

// BindT is the main binding target.
type BindT struct {
	XMLName xml.Name  `json:"-" xml:"doc" form:"-" header:"-"`
	Name    string    `json:"name" xml:"name" form:"name" header:"x-name" binding:"required"`
	Age     int8      `json:"age" xml:"age" form:"age" header:"x-age" binding:"gte=-5,lte=120"`
	Count   uint16    `json:"count" xml:"count" form:"count" header:"x-count"`
	Wide    int64     `json:"wide" xml:"wide" form:"wide" header:"x-wide"`
	Mid     int32     `json:"mid" xml:"mid" form:"mid" header:"x-mid"`
	Score   float32   `json:"score" xml:"score" form:"score" header:"x-score"`
	Tags    []string  `json:"tags" xml:"tags" form:"tags" header:"x-tags"`
	Nums    []uint8   `json:"-" xml:"nums" form:"nums" header:"x-nums"`
	Flag    bool      `json:"flag" xml:"flag" form:"flag" header:"x-flag"`
	Opt     *int16    `json:"opt" xml:"opt" form:"opt" header:"x-opt"`
	Level   int       `json:"level" xml:"level" form:"level,default=7" header:"x-level,default=8"`
	Day     time.Time `json:"-" xml:"-" form:"day" header:"x-day" time_format:"2006-01-02" time_utc:"1"`
	Inner   BindInner `json:"inner" xml:"inner"`
	hidden  int       //lint:ignore U1000 must stay untouched
}

type BindInner struct {
	City string `json:"city" xml:"city" form:"city" header:"x-city" binding:"max=12"`
	Zip  uint8  `json:"zip" xml:"zip" form:"zip" header:"x-zip"`
}

// BindR has the less common kinds of fields.
type BindR struct {
	BindEmb
	*BindPtr
	Sub   *BindSub       `json:"sub"`
	Geo   BindGeo        `json:"geo" form:"geo"` // a JSON document within a form
	Attrs map[string]int `json:"attrs" form:"attrs"`
	Big   uint64         `json:"big" form:"big"`
	F64   float64        `json:"f64" form:"f64"`
	Dur   time.Duration  `json:"dur" form:"dur"`
	Words []string       `json:"words" form:"words,default=one" binding:"max=4,dive,max=8"`
	IDs   []int64        `json:"ids" form:"ids"`
	Oks   []bool         `json:"oks" form:"oks"`
	Fs    []float32      `json:"fs" form:"fs"`
	Ptrs  []*int32       `json:"ptrs" form:"ptrs"`
	Unix  time.Time      `json:"-" form:"unix" time_format:"unix"`
	Nano  time.Time      `json:"-" form:"nano" time_format:"unixNano"`
	Min   time.Time      `json:"-" form:"min" time_format:"2006-01-02 15:04" time_utc:"1"`
	Stamp time.Time      `json:"stamp" form:"stamp" time_utc:"true"`
	Here  time.Time      `json:"-" form:"here" time_format:"2006-01-02 15:04:05"`
	There time.Time      `json:"-" form:"there" time_format:"2006-01-02 15:04:05" time_location:"America/New_York"`
	Zed   time.Time      `json:"-" form:"zed" time_format:"2006-01-02T15:04:05Z"`
	Offs  time.Time      `json:"-" form:"offs" time_format:"2006-01-02T15:04:05Z07:00" time_location:"Asia/Tokyo"`
	Only  time.Time      `json:"-" form:"only" time_format:"15:04" time_location:"America/New_York" time_utc:"1"`
	Small int8           `json:"small" form:"small,default=-3"`
	U     uint           `json:"u" form:"u"`
	PS    *string        `json:"ps" form:"ps"`
	PF    *float64       `json:"pf" form:"pf,default=2.5"`
	I16   int16          `json:"i16" form:"i16"`
	I32   int32          `json:"i32" form:"i32,default=-70000"`
	Port  uint16         `json:"port" form:"port"`
	U32   uint32         `json:"u32" form:"u32"`
	I     int            `json:"i" form:"i"`
	None  string         `json:"-" form:"-"`
	Bare  string         `json:"-"`
}

type BindEmb struct {
	Lang string `json:"lang" form:"lang" binding:"required"`
	Rank uint32 `json:"rank" form:"rank" binding:"lte=1000"`
}

type BindPtr struct {
	Code int32 `json:"code" form:"code" binding:"ne=13"`
}

type BindSub struct {
	Street string `json:"street" form:"street" binding:"max=10"`
	No     uint16 `json:"no" form:"no"`
}

type BindGeo struct {
	Lat float64 `json:"lat"`
	Alt int16   `json:"alt"`
}

func (t *BindR) String() string {
	var b strings.Builder
	code, sub := int32(0), BindSub{}
	if t.BindPtr != nil {
		code = t.Code
	}
	if t.Sub != nil {
		sub = *t.Sub
	}
	fmt.Fprintf(&b, "{%q %d %d %q %d %+v ", t.Lang, t.Rank, code, sub.Street, sub.No, t.Geo)
	var ks []string
	for k := range t.Attrs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%q:%d ", k, t.Attrs[k])
	}
	fmt.Fprintf(&b, "%d %v %d %q %v %v %v [", t.Big, t.F64, int64(t.Dur), t.Words, t.IDs, t.Oks, t.Fs)
	for _, p := range t.Ptrs {
		if p == nil {
			b.WriteString("nil ")
		} else {
			fmt.Fprintf(&b, "%d ", *p)
		}
	}
	for _, d := range []time.Time{t.Unix, t.Nano, t.Min, t.Stamp, t.Here, t.There, t.Zed, t.Offs, t.Only} {
		b.WriteString("| " + d.UTC().Format(time.RFC3339Nano))
	}
	fmt.Fprintf(&b, " %d %d %d %d %d %d %d", t.Small, t.U, t.I16, t.I32, t.Port, t.U32, t.I)
	if t.PS != nil {
		fmt.Fprintf(&b, " ps=%q", *t.PS)
	}
	if t.PF != nil {
		fmt.Fprintf(&b, " pf=%v", *t.PF)
	}
	return b.String() + t.None + t.Bare + "}"
}

// BindF takes files as well.
type BindF struct {
	Name  string                  `form:"name" binding:"required"`
	File  *multipart.FileHeader   `form:"file"`
	Files []*multipart.FileHeader `form:"files"`
}

// BindA has what Bind2 alone supports: arrays.
type BindA struct {
	Name  string                   `form:"name"`
	Trio  [3]int8                  `form:"trio"`
	Duo   [1]string                `form:"duo,default=d"`
	Spans []time.Duration          `form:"spans"`
	File  multipart.FileHeader     `form:"file"`
	Files [2]*multipart.FileHeader `form:"files"`
}

func newTarget(kind string) interface{} {
	switch kind {
	case "file":
		return &BindF{}
	case "mapss":
		m := map[string]string{}
		return &m
	case "maps":
		m := map[string][]string{}
		return &m
	case "arr":
		return &BindA{}
	case "pre":
		six := int16(6)
		return &BindT{Name: "pre", Age: 3, Count: 9, Wide: -1, Mid: 8, Score: 2.5, Tags: []string{"p"}, Nums: []uint8{4, 5}, Flag: true, Opt: &six,
			Level: 1, Day: time.Date(2001, 2, 3, 0, 0, 0, 0, time.UTC), Inner: BindInner{City: "Pre", Zip: 1}}
	case "mapssnil":
		var m map[string]string
		return &m
	case "mapsnil":
		var m map[string][]string
		return &m
	case "rich":
		return &BindR{}
	case "slice":
		return &[]BindInner{}
	case "ptrs":
		return &[]*BindInner{}
	case "ptr":
		var p *BindInner
		return &p
	}
	return &BindT{}
}

func dump(v interface{}) string {
	switch t := v.(type) {
	case *BindT:
		opt := "nil"
		if t.Opt != nil {
			opt = fmt.Sprint(*t.Opt)
		}
		return fmt.Sprintf("{%q %d %d %d %d %v %q %v %v %s %d %s %q %d}", t.Name, t.Age, t.Count, t.Wide, t.Mid, t.Score, t.Tags, t.Nums, t.Flag, opt, t.Level, t.Day.UTC().Format("2006-01-02T15:04"), t.Inner.City, t.Inner.Zip)
	case *BindF:
		s := fmt.Sprintf("{%q", t.Name)
		if t.File != nil {
			s += fmt.Sprintf(" file=%s/%d", t.File.Filename, t.File.Size)
		}
		for _, f := range t.Files {
			s += fmt.Sprintf(" files=%s/%d", f.Filename, f.Size)
		}
		return s + "}"
	case *BindR:
		return t.String()
	case *BindA:
		s := fmt.Sprintf("{%q %v %q %v", t.Name, t.Trio, t.Duo, t.Spans)
		if t.File.Filename != "" {
			s += fmt.Sprintf(" file=%s/%d", t.File.Filename, t.File.Size)
		}
		for _, f := range t.Files {
			if f != nil {
				s += fmt.Sprintf(" files=%s/%d", f.Filename, f.Size)
			}
		}
		return s + "}"
	case *map[string]string:
		return mapStr(*t)
	case *map[string][]string:
		var ks []string
		for k := range *t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := ""
		for _, k := range ks {
			s += fmt.Sprintf("%q=%q ", k, (*t)[k])
		}
		return s
	case *[]BindInner:
		return fmt.Sprintf("%+v", *t)
	case *[]*BindInner:
		s := ""
		for _, p := range *t {
			s += fmt.Sprintf("%+v ", *p)
		}
		return s
	case **BindInner:
		return fmt.Sprintf("%+v", **t)
	}
	return "?"
}

func binder(name string) binding.Bindinger {
	switch name {
	case "json":
		return binding.JSON
	case "xml":
		return binding.XML
	case "multipart":
		return binding.FormMultipart
	case "query":
		return binding.Query
	case "header":
		return binding.Header
	}
	return binding.Form
}

// Warm has a document of every target bound once: decoders are made and kept per
// type, by statements of the code under test.
func Warm() {
	for _, kind := range []string{"", "rich", "slice", "ptrs", "ptr"} {
		doc, form := "{}", "geo=%7B%7D&attrs=%7B%7D&lang=x"
		if kind == "slice" || kind == "ptrs" {
			doc = "[]"
		}
		r, _ := http.NewRequest("POST", "/", strings.NewReader(doc))
		binding.JSON.Bind(r, newTarget(kind))
		if kind == "rich" {
			r, _ = http.NewRequest("GET", "/?"+form, nil)
			r.ParseForm()
			binding.Form.Bind(r, newTarget(kind))
		}
	}
}

func execBind(rec *Rec, c Ctx, op *Op) {
	parsing(rec, "D", func() string {
		t := newTarget(op.S)
		var err error
		if op.S2 == "" || op.S2 == "auto" {
			err = c.Bind(t)
		} else if k, ok := strings.CutSuffix(op.S2, "2"); ok {
			if _, ok := binder(k).(binder2); !ok {
				return "no such binding"
			}
			err = c.Bind2(k, t)
		} else {
			err = c.BindWith(t, binder(op.S2))
		}
		if err != nil {
			return "bind err"
		}
		return "bind ok " + dump(t)
	})
}

// --- the reference for binding ---

func validInner(t *BindInner) error {
	if len([]rune(t.City)) > 12 {
		return errors.New("city")
	}
	return nil
}

func validT(t interface{}) error {
	switch t := t.(type) {
	case *BindT:
		if t.Name == "" || t.Age < -5 || t.Age > 120 {
			return errors.New("rules")
		}
		return validInner(&t.Inner)
	case *BindF:
		if t.Name == "" {
			return errors.New("rules")
		}
	case *BindR:
		if t.Lang == "" || t.Rank > 1000 || t.BindPtr != nil && t.Code == 13 || t.Sub != nil && len([]rune(t.Sub.Street)) > 10 || len(t.Words) > 4 {
			return errors.New("rules")
		}
		for _, w := range t.Words {
			if len([]rune(w)) > 8 {
				return errors.New("rules")
			}
		}
	case **BindInner:
		if *t == nil {
			return errors.New("nothing")
		}
		return validInner(*t)
	case *[]*BindInner:
		for _, p := range *t {
			if p == nil {
				return errors.New("nothing")
			}
			if err := validInner(p); err != nil {
				return err
			}
		}
	case *[]BindInner:
		for i := range *t {
			if err := validInner(&(*t)[i]); err != nil {
				return err
			}
		}
	}
	return nil
}

func (m *mctx) Bind2(kind string, obj interface{}) error {
	m.ParseFormOrMultipartForm()
	return m.mapped(obj, kind, modelMap2)
}

func modelBind(m *mctx, obj interface{}, kind string) error {
	req := m.req
	switch kind {
	case "json":
		defer req.Body.Close()
		if err := json.NewDecoder(req.Body).Decode(obj); err != nil {
			return err
		}
		return validT(obj)
	case "xml":
		defer req.Body.Close()
		if err := xml.NewDecoder(req.Body).Decode(obj); err != nil {
			return err
		}
		return validT(obj)
	}
	m.ParseFormOrMultipartForm()
	return m.mapped(obj, kind, modelMap)
}

type mapper func(obj interface{}, form map[string][]string, files map[string][]*multipart.FileHeader, tag string) error

func (m *mctx) mapped(obj interface{}, kind string, to mapper) error {
	req := m.req
	var err error
	switch kind {
	case "multipart":
		if req.MultipartForm == nil {
			if err := req.ParseMultipartForm(m.mem()); err != nil {
				return err
			}
		}
		err = to(obj, req.MultipartForm.Value, req.MultipartForm.File, "form")
	case "query":
		err = to(obj, req.URL.Query(), nil, "form")
	case "header":
		err = to(obj, req.Header, nil, "header")
	default:
		err = to(obj, req.Form, nil, "form")
	}
	if err != nil {
		return err
	}
	return validT(obj)
}

func modelMap(obj interface{}, form map[string][]string, files map[string][]*multipart.FileHeader, tag string) error {
	key := func(name string) string {
		if tag == "header" {
			return textproto.CanonicalMIMEHeaderKey("x-" + name)
		}
		return name
	}
	get := func(name string) (string, bool) {
		v, ok := form[key(name)]
		if !ok {
			return "", false
		}
		return v[0], true
	}
	num := func(s string, bits int) (int64, error) {
		if s == "" {
			return 0, nil
		}
		return strconv.ParseInt(s, 10, bits)
	}
	unum := func(s string, bits int) (uint64, error) {
		if s == "" {
			return 0, nil
		}
		return strconv.ParseUint(s, 10, bits)
	}
	switch t := obj.(type) {
	case *map[string]string:
		if *t == nil {
			*t = map[string]string{}
		}
		for k, v := range form {
			(*t)[k] = v[len(v)-1]
		}
	case *map[string][]string:
		if *t == nil {
			*t = map[string][]string{}
		}
		for k, v := range form {
			(*t)[k] = v
		}
	case *BindF:
		if tag != "form" {
			return nil
		}
		if v, ok := get("name"); ok {
			t.Name = v
		}
		for _, k := range []string{"file", "files"} {
			_, isText := form[k]
			if isText {
				return errors.New("text for a file")
			}
			if fh := files[k]; len(fh) > 0 {
				if k == "file" {
					t.File = fh[0]
				} else {
					t.Files = append(t.Files, fh...)
				}
			}
		}
	case *BindT:
		for _, k := range []string{"name", "age", "count", "wide", "mid", "score", "tags", "nums", "flag", "opt", "level", "day", "city", "zip"} {
			if len(files[key(k)]) > 0 {
				if _, ok := form[key(k)]; !ok && k != "level" {
					return errors.New("file for a text")
				}
			}
		}
		if v, ok := get("name"); ok {
			t.Name = v
		}
		if v, ok := get("age"); ok {
			n, err := num(v, 8)
			if err != nil {
				return err
			}
			t.Age = int8(n)
		}
		if v, ok := get("count"); ok {
			n, err := unum(v, 16)
			if err != nil {
				return err
			}
			t.Count = uint16(n)
		}
		if v, ok := get("wide"); ok {
			n, err := num(v, 64)
			if err != nil {
				return err
			}
			t.Wide = n
		}
		if v, ok := get("mid"); ok {
			n, err := num(v, 32)
			if err != nil {
				return err
			}
			t.Mid = int32(n)
		}
		if v, ok := get("score"); ok {
			if v == "" {
				v = "0"
			}
			f, err := strconv.ParseFloat(v, 32)
			if err != nil {
				return err
			}
			t.Score = float32(f)
		}
		if v, ok := form[key("tags")]; ok {
			t.Tags = append([]string{}, v...)
		}
		if vs, ok := form[key("nums")]; ok {
			t.Nums = nil
			for _, v := range vs {
				n, err := unum(v, 8)
				if err != nil {
					return err
				}
				t.Nums = append(t.Nums, uint8(n))
			}
		}
		if v, ok := get("flag"); ok {
			if v == "" {
				v = "false"
			}
			b, err := strconv.ParseBool(v)
			if err != nil {
				return err
			}
			t.Flag = b
		}
		if v, ok := get("opt"); ok {
			n, err := num(v, 16)
			if err != nil {
				return err
			}
			o := int16(n)
			t.Opt = &o
		}
		def := "7"
		if tag == "header" {
			def = "8"
		}
		v, ok := get("level")
		if !ok {
			v = def
		}
		n, err := num(v, 64)
		if err != nil {
			return err
		}
		t.Level = int(n)
		if v, ok := get("day"); ok {
			d, err := time.ParseInLocation("2006-01-02", v, time.UTC)
			if v == "" {
				d, err = time.Time{}, nil
			}
			if err != nil {
				return err
			}
			t.Day = d
		}
		if v, ok := get("city"); ok {
			t.Inner.City = v
		}
		if v, ok := get("zip"); ok {
			n, err := unum(v, 8)
			if err != nil {
				return err
			}
			t.Inner.Zip = uint8(n)
		}
	case *BindR:
		if tag != "form" {
			return nil
		}
		return modelRich(t, form, get, num, unum)
	default:
		return errors.New("need struct or map")
	}
	return nil
}

// modelMap2 is what Bind2 differs in: fields without a name in their tag go by
// the name of the field, pointers stay nil when nothing is there for them,
// durations are written as such, and pointers within slices are not supported.
func modelMap2(obj interface{}, form map[string][]string, files map[string][]*multipart.FileHeader, tag string) error {
	switch t := obj.(type) {
	case *BindF:
		if tag != "form" {
			if v := form["Name"]; len(v) > 0 {
				t.Name = v[0]
			}
			return nil
		}
		if len(files["name"]) > 0 {
			return errors.New("file for a text")
		}
	case *BindR:
		if tag != "form" {
			return errors.New("harness: not generated")
		}
		if len(form["ptrs"]) > 0 {
			return errors.New("unknown type")
		}
		rest := map[string][]string{}
		for k, v := range form {
			rest[k] = v
		}
		delete(rest, "dur")
		if err := modelMap(obj, rest, files, tag); err != nil {
			return err
		}
		if v, ok := form["dur"]; ok {
			d, err := time.ParseDuration(v[0])
			if err != nil {
				return err
			}
			t.Dur = d
		}
		if v, ok := form["Bare"]; ok {
			t.Bare = v[0]
		}
		if _, ok := form["code"]; !ok {
			t.BindPtr = nil
		}
		_, a := form["street"]
		_, b := form["no"]
		if !a && !b {
			t.Sub = nil
		}
		return nil
	case *BindA:
		return modelArr(t, form, files)
	case *BindT:
		// a field that is there as a file is not looked up as a text
		if len(files) > 0 {
			return errors.New("harness: not generated")
		}
	}
	return modelMap(obj, form, files, tag)
}

func modelArr(t *BindA, form map[string][]string, files map[string][]*multipart.FileHeader) error {
	for _, k := range []string{"name", "trio", "duo", "spans"} {
		if len(files[k]) > 0 {
			return errors.New("harness: not generated")
		}
	}
	if v, ok := form["name"]; ok {
		t.Name = v[0]
	}
	if vs, ok := form["trio"]; ok {
		if len(vs) != 3 {
			return errors.New("length")
		}
		for i, v := range vs {
			if v == "" {
				v = "0"
			}
			n, err := strconv.ParseInt(v, 10, 8)
			if err != nil {
				return err
			}
			t.Trio[i] = int8(n)
		}
	}
	t.Duo[0] = "d"
	if vs, ok := form["duo"]; ok {
		if len(vs) != 1 {
			return errors.New("length")
		}
		t.Duo[0] = vs[0]
	}
	if vs, ok := form["spans"]; ok {
		for _, v := range vs {
			d, err := time.ParseDuration(v)
			if err != nil {
				return err
			}
			t.Spans = append(t.Spans, d)
		}
	}
	if f := files["file"]; len(f) > 0 {
		t.File = *f[0]
	}
	if f := files["files"]; len(f) > 0 {
		if len(f) != 2 {
			return errors.New("length")
		}
		t.Files[0], t.Files[1] = f[0], f[1]
	}
	return nil
}

var newYork, _ = time.LoadLocation("America/New_York")
var tokyo, _ = time.LoadLocation("Asia/Tokyo")

func modelRich(t *BindR, form map[string][]string, get func(string) (string, bool), num func(string, int) (int64, error), unum func(string, int) (uint64, error)) error {
	var err error
	str := func(n string, to *string) {
		if v, ok := get(n); ok {
			*to = v
		}
	}
	in := func(n string, bits int, put func(int64)) {
		if v, ok := get(n); ok && err == nil {
			var x int64
			if x, err = num(v, bits); err == nil {
				put(x)
			}
		}
	}
	un := func(n string, bits int, put func(uint64)) {
		if v, ok := get(n); ok && err == nil {
			var x uint64
			if x, err = unum(v, bits); err == nil {
				put(x)
			}
		}
	}
	each := func(n string, one func(string) error) {
		for _, v := range form[n] {
			if err == nil {
				err = one(v)
			}
		}
	}
	flt := func(v string, bits int) (float64, error) {
		if v == "" {
			return 0, nil
		}
		return strconv.ParseFloat(v, bits)
	}
	t.BindPtr = &BindPtr{}
	t.Sub = &BindSub{}
	str("lang", &t.Lang)
	un("rank", 32, func(x uint64) { t.Rank = uint32(x) })
	in("code", 32, func(x int64) { t.Code = int32(x) })
	str("street", &t.Sub.Street)
	un("no", 16, func(x uint64) { t.Sub.No = uint16(x) })
	if v, ok := get("geo"); ok && err == nil {
		err = json.Unmarshal([]byte(v), &t.Geo)
	}
	if v, ok := get("attrs"); ok && err == nil {
		err = json.Unmarshal([]byte(v), &t.Attrs)
	}
	un("big", 64, func(x uint64) { t.Big = x })
	if v, ok := get("f64"); ok && err == nil {
		t.F64, err = flt(v, 64)
	}
	in("dur", 64, func(x int64) { t.Dur = time.Duration(x) })
	if _, ok := form["words"]; ok {
		t.Words = append([]string{}, form["words"]...)
	} else {
		t.Words = []string{"one"}
	}
	each("ids", func(v string) error {
		n, err := num(v, 64)
		t.IDs = append(t.IDs, n)
		return err
	})
	each("oks", func(v string) error {
		if v == "" {
			v = "false"
		}
		n, err := strconv.ParseBool(v)
		t.Oks = append(t.Oks, n)
		return err
	})
	each("fs", func(v string) error {
		n, err := flt(v, 32)
		t.Fs = append(t.Fs, float32(n))
		return err
	})
	each("ptrs", func(v string) error {
		n, err := num(v, 32)
		x := int32(n)
		t.Ptrs = append(t.Ptrs, &x)
		return err
	})
	if v, ok := get("unix"); ok && err == nil {
		var n int64
		n, err = strconv.ParseInt(v, 10, 64)
		t.Unix = time.Unix(n, 0)
	}
	if v, ok := get("nano"); ok && err == nil {
		var n int64
		n, err = strconv.ParseInt(v, 10, 64)
		t.Nano = time.Unix(n/1e9, n%1e9)
	}
	if v, ok := get("min"); ok && v != "" && err == nil {
		t.Min, err = time.ParseInLocation("2006-01-02 15:04", v, time.UTC)
	}
	if v, ok := get("stamp"); ok && v != "" && err == nil {
		t.Stamp, err = time.ParseInLocation(time.RFC3339, v, time.UTC)
	}
	if v, ok := get("here"); ok && v != "" && err == nil {
		t.Here, err = time.ParseInLocation("2006-01-02 15:04:05", v, time.Local)
	}
	if v, ok := get("there"); ok && v != "" && err == nil {
		t.There, err = time.ParseInLocation("2006-01-02 15:04:05", v, newYork)
	}
	if v, ok := get("zed"); ok && v != "" && err == nil {
		t.Zed, err = time.ParseInLocation("2006-01-02T15:04:05Z", v, time.Local)
	}
	if v, ok := get("offs"); ok && v != "" && err == nil {
		t.Offs, err = time.ParseInLocation("2006-01-02T15:04:05Z07:00", v, tokyo)
	}
	if v, ok := get("only"); ok && v != "" && err == nil {
		t.Only, err = time.ParseInLocation("15:04", v, newYork)
	}
	t.Small = -3
	in("small", 8, func(x int64) { t.Small = int8(x) })
	un("u", 64, func(x uint64) { t.U = uint(x) })
	in("i16", 16, func(x int64) { t.I16 = int16(x) })
	t.I32 = -70000
	in("i32", 32, func(x int64) { t.I32 = int32(x) })
	un("port", 16, func(x uint64) { t.Port = uint16(x) })
	un("u32", 32, func(x uint64) { t.U32 = uint32(x) })
	in("i", 64, func(x int64) { t.I = int(x) })
	if v, ok := get("ps"); ok {
		t.PS = &v
	}
	v, ok := get("pf")
	if !ok {
		v = "2.5"
	}
	if err == nil {
		var f float64
		f, err = flt(v, 64)
		t.PF = &f
	}
	return err
}

func modelBinder(method, ct string) string {
	if method == http.MethodGet {
		return "form"
	}
	if (method == "POST" || method == "PUT" || method == "PATCH") && ct == "multipart/form-data" {
		return "multipart"
	}
	switch ct {
	case "application/json":
		return "json"
	case "application/xml", "text/xml":
		return "xml"
	}
	return "form"
}

var _ = strings.TrimSpace
