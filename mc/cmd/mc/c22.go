package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// The folder layout below the scratch directory; "data" is where the LDIF data is loaded from.
var c22Files = []string{"secret", "f", "data2/f", "data2/sub/f", "dat/f", "data/f", "data/..f", "data/sub/f", "data/sub/sub/f", "data/data/f", "data/data2", "conf/f", "data/sub/...", "Data/f", "DATA/sub/f"}

var c22Comps = []string{"f", "sub", "..", ".", "", "data", "data2", "..f", "...", "dat", "DATA"}

// Prefixes of the paths; @ stands for the directory above the data.
var c22Prefixes = []string{"", "@/data/", "@/", "/", "@/data2/", "@/data", "@/Data/"}

// Ways to name the data.
var c22Places = []string{"file", "folder", "folder/", "unclean folder", "relative folder", "relative file", "config elsewhere", "config elsewhere, reloaded"}

type c22Case struct {
	Place  int   `json:"place"`
	Prefix int   `json:"prefix"`
	Comps  []int `json:"comps"`
	Size   int   `json:"size,omitempty"` // embed a file of that size instead, -1: empty
}

func (k c22Case) path(top string) string {
	if k.Size != 0 {
		return "big"
	}
	var l []string
	for _, i := range k.Comps {
		l = append(l, c22Comps[i])
	}
	return strings.ReplaceAll(c22Prefixes[k.Prefix], "@", top) + strings.Join(l, "/")
}

func (k c22Case) String() string {
	if k.Size != 0 {
		return fmt.Sprintf("%s: file of %d bytes", c22Places[k.Place], max(k.Size, 0))
	}
	return fmt.Sprintf("%s: %q", c22Places[k.Place], k.path("@"))
}

// c22Clean resolves a slash separated absolute path lexically.
func c22Clean(p string) []string {
	var l []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(l) > 0 {
				l = l[:len(l)-1]
			}
		default:
			l = append(l, c)
		}
	}
	return l
}

func c22Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + i>>16)
	}
	return b
}

const c22Limit = 1024 * 1024

type c22Worker struct {
	top string
	cwd string
}

func c22Open(c *run.Ctx, w int) (*c22Worker, error) {
	x := &c22Worker{top: filepath.Join(c.Scratch, fmt.Sprintf("c22-%d", w))}
	os.RemoveAll(x.top)
	for _, f := range c22Files {
		p := filepath.Join(x.top, f)
		os.MkdirAll(filepath.Dir(p), 0o755)
		writeFile(p, "content of "+f)
	}
	var err error
	x.cwd, err = os.Getwd()
	return x, err
}

func (x *c22Worker) judge(c *run.Ctx, k c22Case) string {
	data := filepath.Join(x.top, "data")
	path := k.path(x.top)
	// What has to come out of it.
	abs := path
	if !strings.HasPrefix(path, "/") {
		abs = data + "/" + path
	}
	l, base := c22Clean(abs), c22Clean(data)
	var want []byte
	fail := len(l) <= len(base)
	for i := 0; i < len(base) && !fail; i++ {
		fail = l[i] != base[i]
	}
	inside := !fail
	if k.Size != 0 {
		want = c22Bytes(max(k.Size, 0))
		if err := os.WriteFile(filepath.Join(data, "big"), want, 0o600); err != nil {
			return err.Error()
		}
		defer os.Remove(filepath.Join(data, "big"))
		fail = len(want) > c22Limit
	} else if !fail {
		b, err := os.ReadFile("/" + strings.Join(l, "/"))
		want, fail = b, err != nil
	}
	text := "dn: cn=a,dc=x\ncn: a\njpegPhoto:: {{formatAsFileBase64 " + strconv.Quote(path) + "}}\n"
	file := filepath.Join(data, "main.ldif")
	writeFile(file, text)
	cfg := ldifConfig(filepath.Join(x.top, "conf"), "", c21Svc)
	cfg.LDIFMain = data
	rel := func(p string) string {
		r, err := filepath.Rel(x.cwd, p)
		if err != nil {
			return p
		}
		return r
	}
	place := c22Places[k.Place]
	switch place {
	case "file":
		cfg.LDIFMain = file
	case "folder/":
		cfg.LDIFMain += "/"
	case "unclean folder":
		cfg.LDIFMain = x.top + "/./data2/..//data/."
	case "relative folder":
		cfg.LDIFMain = rel(data)
	case "relative file":
		cfg.LDIFMain = rel(file)
	case "config elsewhere", "config elsewhere, reloaded":
		writeFile(cfg.LDIFConfig, c21Svc+"\ndescription:: {{formatAsFileBase64 \"f\"}}\n")
	}
	if strings.HasSuffix(place, "reloaded") {
		writeFile(file, "dn: cn=a,dc=x\ncn: a\n")
	}
	s, err := wire.Start(cfg)
	if err == nil && strings.HasSuffix(place, "reloaded") {
		writeFile(file, text)
		err = s.Reload()
		if err != nil {
			s.Stop()
		}
	}
	if err != nil {
		if !fail {
			return "refused: " + err.Error()
		}
		c.Outcome(fmt.Sprintf("refused, inside=%v", inside))
		return ""
	}
	defer s.Stop()
	got, err := c21ReadRaw(s)
	if err != nil {
		return err.Error()
	}
	var photo []string
	for _, e := range got {
		for _, a := range e.Attrs {
			if a.Name == "jpegPhoto" {
				photo = append(photo, a.Values...)
			}
		}
	}
	if fail {
		return fmt.Sprintf("embedded: %q", trim(strings.Join(photo, "|"), 100))
	}
	if len(photo) != 1 || !bytes.Equal([]byte(photo[0]), want) {
		return fmt.Sprintf("%d values, first of %d bytes instead of %d", len(photo), len(strings.Join(photo, "")), len(want))
	}
	c.Outcome("embedded")
	c.Nontrivial.Add(1)
	return ""
}

// c21ReadRaw returns all entries as served.
func c21ReadRaw(s *wire.Srv) ([]wire.Entry, error) {
	cl := s.Dial()
	defer cl.Close()
	if r := cl.Bind("cn=svc,dc=x", "svc"); r.Code != 0 {
		return nil, fmt.Errorf("bind of the service user: %d %s", r.Code, bad(r))
	}
	r := cl.Do(wire.SearchOp(dir.Base, model.ScopeSub, 0, false, wire.FPresent("cn"), nil))
	if r.Code != 0 {
		return nil, fmt.Errorf("search: %d %s", r.Code, bad(r))
	}
	return r.Entries, nil
}

func init() {
	register(&run.Check{
		ID: "C22", Level: "exploration",
		Rule:   "All paths of up to three components (thorough: four; quick: four for a single file) over names, dots, parent references, empty components and siblings with common prefixes, with every absolute prefix, for every way to name the data; all file sizes around the encoding and limit boundaries. The server is started and the served value compared with the file. Non-trivial are embedded files.",
		Assume: []string{"symbolic links are followed, containment is lexical"},
		Explore: func(c *run.Ctx) {
			var cases []c22Case
			for p := range c22Places {
				var sizes []int
				for _, b := range []int{0, 48, 57, 768, 1024, 4096, 32768, 65536, c22Limit} {
					for d := -4; d <= 4; d++ {
						if b+d > 0 {
							sizes = append(sizes, b+d)
						}
					}
				}
				sizes = append(sizes, -1, 5*c22Limit/4, 3*c22Limit)
				for _, s := range sizes {
					cases = append(cases, c22Case{Place: p, Size: s})
				}
				for pre := range c22Prefixes {
					var add func(comps []int)
					add = func(comps []int) {
						if len(comps) > 0 {
							cases = append(cases, c22Case{Place: p, Prefix: pre, Comps: append([]int{}, comps...)})
						}
						if len(comps) == 4 || len(comps) == 3 && !c.Thorough && (p > 0 || pre > 0) || len(comps) == 2 && !c.Thorough && p > 1 && pre > 0 {
							return
						}
						for i := range c22Comps {
							add(append(comps, i))
						}
					}
					add(nil)
				}
			}
			ws := make([]*c22Worker, c.Workers)
			c.Par(len(cases), func(w, i int) {
				if c.Expired() || c.Enough() {
					return
				}
				k := cases[i]
				c.Announce(w, k)
				if ws[w] == nil {
					var err error
					if ws[w], err = c22Open(c, w); err != nil {
						c.Errorf("%v", err)
						return
					}
				}
				c.Evals.Add(1)
				if what := ws[w].judge(c, k); what != "" {
					c.Violation(k.String(), k.String()+": "+what, k)
				}
				if i%3001 == 77 {
					c.Sample(k.String())
				}
			})
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c22Case) string {
			x, err := c22Open(c, w)
			if err != nil {
				return err.Error()
			}
			return x.judge(c, k)
		}),
	})
}
