package props

import (
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"time"

	static "github.com/wujiu2020/strip/static-serve"
	"strip.verif/mc"
)

// the files below the served directory, directories end in a slash
var stFiles = map[string]string{
	"a.txt":                "file a",
	"b":                    "<html>file b",
	"empty.txt":            "",
	"sp ace%41.txt":        "odd name",
	"é.html":               "accent",
	"..odd":                "dots",
	"big.bin":              strings.Repeat("0123456789abcdef", 3000),
	"fall.html":            "the fallback",
	"sub/index.html":       "index of sub",
	"sub/c.txt":            "file c",
	"sub/a.txt":            "another a",
	"sub/deep/d.txt":       "file d",
	"static/a.txt":         "a below static",
	"noindex/e.txt":        "file e",
	"dirindex/index.html/": "",
	"host.example/":        "",
}

// and around it
var stOutside = map[string]string{
	"secret.txt":    "SECRET outside",
	"www2/a.txt":    "SECRET sibling",
	"www.txt":       "SECRET next to it",
	"sub/c.txt":     "SECRET c",
	"static/x.txt":  "SECRET x",
	"fall.html":     "SECRET fallback",
	"noindex/x.txt": "SECRET",
}

var stTree = sync.OnceValue(func() string {
	root, err := filepath.EvalSymlinks(os.Getenv("VERIF_SCRATCH"))
	if err != nil {
		panic(err)
	}
	root = filepath.Join(root, fmt.Sprintf("static.%d", os.Getpid()))
	put := func(dir string, files map[string]string) {
		for n, c := range files {
			f := filepath.Join(dir, n)
			if strings.HasSuffix(n, "/") {
				os.MkdirAll(f, 0o755)
				continue
			}
			os.MkdirAll(filepath.Dir(f), 0o755)
			if err := os.WriteFile(f, []byte(c), 0o644); err != nil {
				panic(err)
			}
		}
	}
	put(root, stOutside)
	put(filepath.Join(root, "www"), stFiles)
	os.Symlink("nowhere", filepath.Join(root, "www", "dangling"))
	return root
})

// stOpen counts the files of the tree this process has open
func stOpen(root string) (names []string) {
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if t, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(t, root) {
			names = append(names, strings.TrimPrefix(t, root))
		}
	}
	return
}

func stIsDir(p string) bool {
	if p == "" {
		return true
	}
	for n := range stFiles {
		if strings.HasPrefix(n, p+"/") {
			return true
		}
	}
	return false
}

var stSegs = []string{"a.txt", "b", "sub", "c.txt", "..", ".", "", "index.html", "noindex", "nope", "static", "..odd", "www", "secret.txt", "dirindex"}
var stRare = []string{"empty.txt", "sp ace%41.txt", "é.html", "big.bin", "dangling", "deep", "d.txt", "www2", "...", "..\\", "\\", "a.txt\x00", "\x00", "%2e%2e", "A.TXT", "sub2", "host.example", "staticx", "?", "#", "~", "c:", "fall.html"}

func init() {
	mc.Register(&mc.Check{
		ID:    "C24",
		Model: "a map of the files below the served directory; the lexically cleaned path below the prefix selects one",
		Assumptions: []string{
			"the served directory holds regular files and directories (symbolic links are followed by design, fifos are excluded)",
			"a path of a regular file with a trailing slash may be served or not found, a directory without index page may give the fallback file or not found",
			"the fallback is a regular file or missing",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"path segments": map[bool]int{true: 5, false: 4}[th], "segment alphabet": len(stSegs), "further segments (one per path)": len(stRare), "prefixes": 5, "methods": 4, "options": 32}
		},
		Init: clearEnv,
		Run: func(x *mc.X) {
			if x.Choose(2, "mode") == 1 {
				runStaticChanges(x)
				return
			}
			root := stTree()
			prefix := mc.Pick(x, "prefix", []string{"", "/static", "static/", "/", "/static/sub"})
			opt := static.StaticOption{}
			opt.TryFilesThen = mc.Pick(x, "fallback", []string{"", "/fall.html", "missing.html", "../fall.html"})
			opt.SkipPrefix = mc.Pick(x, "skipped", [][]string{nil, {"/sub"}, {"/x", "/a"}, {""}})
			opt.AnyMethod = x.Bool("any method")
			method := mc.Pick(x, "method", []string{"GET", "HEAD", "POST", "get"})
			query := mc.Pick(x, "query", []string{"", "q=1&r=/"})
			// the less usual options only with shorter paths
			odd := 0
			for _, b := range []bool{opt.TryFilesThen == "missing.html", opt.TryFilesThen == "../fall.html", opt.SkipPrefix != nil, opt.AnyMethod, method != "GET", query != "", prefix == "/" || prefix == "/static/sub"} {
				if b {
					odd++
				}
			}
			max := 4
			if x.Thorough {
				max = 5
			}
			max -= min(odd, 3)
			lead := mc.Pick(x, "lead", []string{"", "/static", "/static/sub", "/staticx", "/static..", "/STATIC"})
			n := x.Choose(max+1, "segments")
			p := lead
			rare := false
			for i := 0; i < n; i++ {
				k := x.Choose(2, "kind")
				if k == 1 && (rare || n > 2) {
					x.Skip()
				}
				seg := ""
				if k == 0 {
					seg = mc.Pick(x, "segment", stSegs)
				} else {
					rare = true
					seg = mc.Pick(x, "segment", stRare)
				}
				p += "/" + seg
				if i == 0 {
					x.Ready()
				}
			}
			x.Ready()
			if p == "" {
				p = "/"
			}
			x.Op()

			sp := newApp()
			sp.Filter(static.ServeFilter(prefix, filepath.Join(root, "www"), opt))
			handled := 0
			sp.NotFound(func(rw http.ResponseWriter) {
				handled++
				rw.WriteHeader(418)
				rw.Write([]byte("handler"))
			})
			stJudge(x, sp, root, prefix, opt, method, p, query, &handled, "")
			// and another one through the same filter
			if n <= 1 && !rare && query == "" {
				p2 := lead + mc.Pick(x, "next path", []string{"/a.txt", "/sub/c.txt", "/sub/", "/nope", "/", "/../secret.txt"})
				x.Op()
				stJudge(x, sp, root, prefix, opt, "GET", p2, query, &handled, "after "+method+" "+p+": ")
				stJudge(x, sp, root, prefix, opt, method, p, query, &handled, "again, after "+p2+": ")
			}
		},
	})
}

var stChanged int

// files that change between requests, and conditional and partial requests
func runStaticChanges(x *mc.X) {
	fallback := x.Bool("fallback")
	n := 3
	if x.Thorough {
		n = 4
	}
	steps := make([]string, n)
	for i := range steps {
		steps[i] = mc.Pick(x, "step", []string{"file one", "file second", "file third", "directory", "removed", "nothing"})
	}
	header := mc.Pick(x, "header", []string{"", "since last", "since before", "range", "range of the last"})
	method := mc.Pick(x, "method", []string{"GET", "HEAD"})
	x.Ready()
	stChanged++
	dir := filepath.Join(stTree(), fmt.Sprintf("changes.%d", stChanged))
	defer os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(dir, "fall.html"), []byte("the fallback"), 0o644)
	file := filepath.Join(dir, "x.txt")
	opt := static.StaticOption{}
	if fallback {
		opt.TryFilesThen = "fall.html"
	}
	sp := newApp()
	sp.Filter(static.ServeFilter("", dir, opt))
	content, isDir := "", false
	when := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	os.Chtimes(filepath.Join(dir, "fall.html"), when.Add(-time.Hour), when.Add(-time.Hour))
	var seen string // Last-Modified of the last answer
	desc := fmt.Sprintf("%s with header %q, fallback %v", method, header, fallback)
	for _, s := range steps {
		desc += ", " + s
		if what, ok := strings.CutPrefix(s, "file "); ok {
			os.RemoveAll(file)
			content, isDir = strings.Repeat(what+" ", 3), false
			if err := os.WriteFile(file, []byte(content), 0o644); err != nil {
				panic(err)
			}
		}
		switch s {
		case "directory":
			os.RemoveAll(file)
			content, isDir = "the index", true
			os.MkdirAll(file, 0o755)
			os.WriteFile(filepath.Join(file, "index.html"), []byte(content), 0o644)
		case "removed":
			os.RemoveAll(file)
			content, isDir = "", false
		}
		if s != "nothing" {
			when = when.Add(time.Minute)
		}
		for _, f := range []string{filepath.Join(file, "index.html"), file} {
			os.Chtimes(f, when, when)
		}
		for _, path := range []string{"/x.txt", "/x.txt/"} {
			x.Op()
			req := newReq(method, path)
			since, part := "", false
			switch header {
			case "since last":
				since = seen
			case "since before":
				since = when.Add(-30 * time.Second).Format(http.TimeFormat)
			case "range":
				req.Header.Set("Range", "bytes=1-3")
				part = true
			case "range of the last":
				if seen != "" {
					req.Header.Set("Range", "bytes=1-3")
					req.Header.Set("If-Range", seen)
					part = seen == when.Format(http.TimeFormat)
				}
			}
			if since != "" {
				req.Header.Set("If-Modified-Since", since)
			}
			r, p := serve(sp, req)
			body := r.body.String()
			bad := func(want string) {
				x.Failf("change", "%s\n%s is answered with %d %q (range %q, panic %v), want %s", desc, path, r.code, body, r.sent.Get("Content-Range"), p, want)
			}
			if p != nil || r.heads != 1 {
				bad("one answer")
			}
			want, wantTime := content, when
			if isDir && path == "/x.txt" {
				if r.code < 300 || r.code > 308 || !strings.HasSuffix(r.sent.Get("Location"), "/x.txt/") {
					bad("a redirect to the directory")
				}
				continue
			}
			if content == "" {
				if !fallback {
					if r.code != 404 {
						bad("not found")
					}
					continue
				}
				want, wantTime = "the fallback", time.Date(2020, 1, 2, 2, 4, 5, 0, time.UTC)
				if part = header == "range"; header == "range of the last" {
					part = seen == wantTime.Format(http.TimeFormat)
				}
			} else if !isDir && path == "/x.txt/" {
				if r.code != 404 && r.code != 200 && r.code != 206 && r.code != 304 {
					bad("the file or not found")
				}
				continue // the file with a slash: may be served or not found
			}
			same := false
			if t, err := http.ParseTime(since); err == nil && !wantTime.After(t) {
				same = true
			}
			text := body
			if method == "HEAD" {
				text = want
				if body != "" {
					bad("no body")
				}
			}
			switch {
			case r.code == 304 && same && body == "":
			case r.code == 206 && part && r.sent.Get("Content-Range") == fmt.Sprintf("bytes 1-3/%d", len(want)) && (method == "HEAD" && body == "" || body == want[1:4]):
			case r.code == 200 && text == want && r.sent.Get("Content-Length") == fmt.Sprint(len(want)):
			default:
				bad(fmt.Sprintf("%q", want))
			}
			if lm := r.sent.Get("Last-Modified"); lm != "" {
				if lm != wantTime.Format(http.TimeFormat) && r.code != 304 {
					bad("the time of the file, not " + lm)
				}
				seen = lm
			}
		}
		if open := stOpen(dir); len(open) > 0 {
			x.Failf("open", "%s: files stay open: %q", desc, open)
		}
	}
	x.State(desc)
}

func stJudge(x *mc.X, sp http.Handler, root, prefix string, opt static.StaticOption, method, p, query string, count *int, before2 string) {
	*count = 0
	req := newReq(method, p)
	req.URL.RawQuery = query
	before := *req.URL
	r, pan := serve(sp, req)
	desc := before2 + fmt.Sprintf("%s %q?%s with prefix %q, options %+v", method, p, query, prefix, opt)
	if pan != nil {
		x.Failf("panic", "%s panics: %v", desc, pan)
	}
	body := r.body.String()
	if strings.Contains(body, "SECRET") {
		x.Failf("outside", "%s: content from outside the directory is sent: %q", desc, body)
	}
	if open := stOpen(root); len(open) > 0 {
		x.Failf("open", "%s: files stay open: %q", desc, open)
	}
	if *req.URL != before {
		x.Failf("pass", "%s: the request's URL becomes %v", desc, req.URL)
	}

	// what should happen
	file, in := p, true
	switch prefix {
	case "/static", "static/":
		file, in = strings.CutPrefix(p, "/static")
	case "/static/sub":
		file, in = strings.CutPrefix(p, "/static/sub")
	}
	if file != "" && file[0] != '/' {
		in = false
	}
	for _, s := range opt.SkipPrefix {
		in = in && !strings.HasPrefix(file, s)
	}
	in = in && (opt.AnyMethod || method == "GET" || method == "HEAD")
	x.Statef("%v %d %s %.20s", in, r.code, r.hdr.Get("Location"), body)
	if !in {
		if *count != 1 || r.code != 418 || method != "HEAD" && body != "handler" {
			x.Failf("pass", "%s: expected to pass through, but answered with %d %q", desc, r.code, body)
		}
		return
	}
	if *count != 0 {
		x.Failf("answer", "%s: expected an answer, but it was passed on", desc)
	}
	is := func(content string) bool {
		if r.code != 200 || r.heads != 1 {
			return false
		}
		if l := r.sent.Get("Content-Length"); l != fmt.Sprint(len(content)) {
			return false
		}
		if method == "HEAD" {
			return body == ""
		}
		return body == content
	}
	notFound := r.code == 404 && *count == 0
	fallback := opt.TryFilesThen != "missing.html" && opt.TryFilesThen != "" && is(stFiles["fall.html"])
	other := notFound
	if opt.TryFilesThen == "/fall.html" || opt.TryFilesThen == "../fall.html" {
		other = fallback
	}
	rel := strings.TrimPrefix(path.Clean("/"+file), "/")
	content, isFile := stFiles[rel]
	switch {
	case strings.Contains(rel, "\x00"):
		if !other {
			x.Failf("missing", "%s: answered with %d %q", desc, r.code, body)
		}
	case isFile:
		if !is(content) && !(strings.HasSuffix(p, "/") && other) {
			x.Failf("file", "%s: answered with %d, %.60q (length %s), want the file %s", desc, r.code, body, r.sent.Get("Content-Length"), rel)
		}
	case stIsDir(rel):
		if !strings.HasSuffix(p, "/") {
			loc, err := url.Parse(r.hdr.Get("Location"))
			base := &url.URL{Scheme: "http", Host: "served.example", Path: p}
			var to *url.URL
			if err == nil {
				to = base.ResolveReference(loc)
			}
			if r.code < 300 || r.code > 308 || to == nil || to.Host != base.Host || to.Scheme != "http" || !strings.HasSuffix(to.Path, "/") || path.Clean(to.Path) != path.Clean(p) || to.RawQuery != query {
				x.Failf("redirect", "%s: answered with %d to %q", desc, r.code, r.hdr.Get("Location"))
			}
			return
		}
		if c, ok := stFiles[strings.TrimPrefix(rel+"/index.html", "/")]; ok {
			if !is(c) {
				x.Failf("index", "%s: answered with %d %.60q, want the index page of %s", desc, r.code, body, rel)
			}
		} else if !notFound && !fallback {
			x.Failf("missing", "%s: a directory without index page is answered with %d %.60q", desc, r.code, body)
		}
	default:
		if !other {
			x.Failf("missing", "%s: answered with %d %.60q", desc, r.code, body)
		}
	}
}
