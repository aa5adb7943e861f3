// C24: bad requests are refused cleanly.
package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	"k8s.io/apimachinery/pkg/labels"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/ref"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
)

const queryKey = "ckube.daocloud.io/query"

var pool sync.Pool

func cfg() common.Config { return gen.Config("c1", "k", "t") }

var specs = []gen.Spec{
	{C: "c1", N: "n1", O: "a", L: map[string]string{"a": "1"}, K: map[string]string{"k": "3", "t": "x"}},
	{C: "c1", N: "n1", O: "b", L: map[string]string{"a": "2", "b": ""}, K: map[string]string{"k": "20", "t": "1"}},
	{C: "c1", N: "n2", O: "c", L: map[string]string{"b": "1", "in": "x"}, K: map[string]string{"k": "1", "t": ""}},
	{C: "c1", N: "n2", O: "d", K: map[string]string{"k": "3", "t": "name"}},
	{C: "c2", N: "n1", O: "a", L: map[string]string{"a": "1"}, K: map[string]string{"k": "7", "t": "x"}},
}

func setup(*mc.Ctx) {
	world.New(cfg())
	pool = sync.Pool{New: func() any {
		w := world.New(cfg(), "c1", "c2")
		gen.Fill(w.Store, specs, true, true)
		return w
	}}
	pool.Put(pool.New())
}

// Case is one request.
type Case struct {
	M    string `json:",omitempty"` // GET
	P    string `json:",omitempty"` // /api/v1/pods
	Raw  string `json:",omitempty"` // raw query string; else
	Sel  string `json:",omitempty"` // value of labelSelector
	Body string `json:",omitempty"`
	CT   string `json:",omitempty"`
	Hdr  string `json:",omitempty"` // value of some headers
}

// want is the meaning of a list request.
type want struct {
	known bool // the reference knows what a success must contain
	bad   bool // malformed: no success from the cache
	keys  []string
	rest  int64
}

// payload decodes the value(s) of the query requirement: parts at their stated positions.
func payload(vals []string) (page.Paginate, bool) {
	var p page.Paginate
	if len(vals) == 0 {
		return p, true
	}
	text := vals[0]
	if len(vals) > 1 {
		parts := map[int]string{}
		n := 0
		for _, v := range vals {
			f := strings.Split(v, ".")
			var pos int
			if len(f) != 2 || len(f[0]) < 4 || strings.Trim(f[0], "0123456789") != "" {
				return p, false
			}
			fmt.Sscanf(f[0], "%d", &pos)
			if _, dup := parts[pos]; dup {
				return p, false
			}
			parts[pos] = f[1]
			n++
		}
		var sb strings.Builder
		for len(parts) > 0 {
			t, ok := parts[sb.Len()]
			if !ok || t == "" && len(parts) > 1 {
				return p, false
			}
			delete(parts, sb.Len())
			sb.WriteString(t)
		}
		text = sb.String()
	}
	b, err := base64.RawStdEncoding.DecodeString(text)
	if err != nil {
		return p, false
	}
	if text != "" && json.Unmarshal(b, &p) != nil {
		return p, false
	}
	return p, true
}

// meaning of a list of the pods with the label selector.
func meaning(sel, ns string) want {
	reqs, err := labels.ParseToRequirements(sel)
	if err != nil {
		return want{known: true, bad: true}
	}
	var p page.Paginate
	var others labels.Requirements
	n := 0
	for _, r := range reqs {
		if r.Key() != queryKey {
			others = append(others, r)
			if r.Operator() == "gt" || r.Operator() == "lt" {
				return want{known: true, bad: true}
			}
			continue
		}
		n++
		vals := r.Values().List()
		if len(vals) == 0 || len(vals) == 1 && vals[0] == "" {
			return want{} // whether this is an empty query or a label nobody knows is open
		}
		var ok bool
		if p, ok = payload(vals); !ok {
			return want{known: true, bad: true}
		}
	}
	if n > 1 {
		return want{}
	}
	if p.Page < 0 || p.PageSize < 0 {
		return want{known: true, bad: true}
	}
	for _, c := range ref.Split(p.Search) {
		if strings.HasPrefix(strings.TrimSpace(c), "=") {
			return want{} // no key: not documented
		}
	}
	ls := labels.NewSelector().Add(others...)
	var objs []ref.Obj
	for _, s := range specs {
		o := s.Ref("k", "t")
		ok, err := ref.Match(o.Index, p.Search)
		if err != nil {
			return want{known: true, bad: true}
		}
		if !strings.Contains(p.Search, "cluster") && s.C != "c1" || ns != "" && s.N != ns {
			continue
		}
		if ok {
			objs = append(objs, o)
		}
	}
	if len(objs) > 0 {
		if objs, err = ref.Sort(objs, p.Sort); err != nil {
			return want{known: true, bad: true}
		}
	}
	var sel2 []ref.Obj
	for _, o := range objs {
		if ls.Matches(labels.Set(o.Labels)) {
			sel2 = append(sel2, o)
		}
	}
	f, t, _ := ref.Page(len(sel2), p.Page, p.PageSize)
	return want{known: true, keys: gen.RefKeys(sel2[f:t]), rest: int64(len(sel2) - t)}
}

var probes = []func() *http.Request{
	func() *http.Request { return world.Req("GET", "/api/v1/pods", nil, "") },
	func() *http.Request {
		return world.Req("GET", "/apis/x.io/v1/namespaces/n1/widgets", url.Values{"labelSelector": {"a," + gen.Encode(page.Paginate{Page: 1, PageSize: 1, Sort: "k!int desc"})}}, "")
	},
	func() *http.Request { return world.Req("GET", "/api/v1/namespaces/n1/pods/a", nil, "") },
	func() *http.Request { return world.Req("POST", "/api/v1/namespaces/n1/pods", nil, `{"a":1}`) },
}

var probed []string
var probeOnce sync.Once

func probe(w *world.World) []string {
	var r []string
	for _, p := range probes {
		a := w.Do(p())
		r = append(r, fmt.Sprintf("%d %s %v", a.Code, a.Body, w.Taken()))
	}
	return r
}

// check performs the request and judges the answer.
func check(x *mc.X, w *world.World, t Case) error {
	if t.M == "" {
		t.M = "GET"
	}
	if t.P == "" {
		t.P = "/api/v1/pods"
	}
	hdr := []string{}
	if t.CT != "" {
		hdr = append(hdr, "Content-Type", t.CT)
	}
	if t.Hdr != "" {
		hdr = append(hdr, "Accept", t.Hdr, "Authorization", t.Hdr, "Impersonate-User", t.Hdr, "X-Forwarded-For", t.Hdr)
	}
	r := world.Req(t.M, t.P, nil, t.Body, hdr...)
	if t.Raw != "" {
		r.URL.RawQuery = t.Raw
	} else if t.Sel != "" {
		r.URL.RawQuery = url.Values{"labelSelector": {t.Sel}}.Encode()
	}
	r.RequestURI = r.URL.RequestURI()
	path := r.URL.Path
	q, _ := url.ParseQuery(r.URL.RawQuery)
	a := w.Do(r)
	ups := w.Taken()
	x.Step(1)
	what := fmt.Sprintf("%s %s?%s body %q: status %d %.200s", t.M, t.P, r.URL.RawQuery, t.Body, a.Code, a.Body)
	x.Outcome(fmt.Sprint(a.Code, len(ups)))
	switch {
	case a.Code >= 500:
		return fmt.Errorf("%s", what)
	case len(ups) > 1:
		return fmt.Errorf("%s: forwarded %d times", what, len(ups))
	case len(ups) == 1:
		if a.Code != 200 || string(a.Body) != `{"upstream":"`+ups[0].Cluster+`"}` {
			return fmt.Errorf("%s: not the answer of the API server it was forwarded to (%v)", what, ups[0])
		}
		if t.M != ups[0].Method || path != ups[0].Path {
			return fmt.Errorf("%s: forwarded as %v", what, ups[0])
		}
		return nil
	case a.Code >= 400:
		if a.Code == 405 || len(a.Body) == 0 { // the router
			return nil
		}
		var st struct {
			Kind   string      `json:"kind"`
			Status interface{} `json:"status"`
			Code   int         `json:"code"`
		}
		if err := json.Unmarshal(a.Body, &st); err != nil || st.Kind != "Status" || st.Status != "Failure" || st.Code != a.Code {
			return fmt.Errorf("%s: not a well-formed status (%v)", what, err)
		}
		return nil
	case a.Code >= 300:
		if a.Header.Get("Location") == "" || path == "/api/v1/pods" {
			return fmt.Errorf("%s: redirected to %q", what, a.Header.Get("Location"))
		}
		return nil
	case a.Code != 200:
		return fmt.Errorf("%s", what)
	}
	if t.M != "GET" {
		return fmt.Errorf("%s: answered without an API server", what)
	}
	// a success from the cache: it must be the right content
	ns := ""
	switch path {
	case "/api/v1/pods":
	case "/healthy", "/metrics":
		return nil
	default:
		if n, ok := strings.CutPrefix(path, "/api/v1/namespaces/"); ok {
			if n, ok = strings.CutSuffix(n, "/pods"); ok && n != "" && !strings.Contains(n, "/") {
				ns = n
				break
			}
		}
		if strings.HasPrefix(path, "/custom/v1/") {
			if string(a.Body) != "[]" {
				return fmt.Errorf("%s", what)
			}
			return nil
		}
		if strings.HasPrefix(path, "/api/v1/") {
			var it world.Item
			if json.Unmarshal(a.Body, &it) == nil && it.Metadata.Name != "" && path == "/api/v1/namespaces/"+it.Metadata.Namespace+"/pods/"+it.Metadata.Name {
				return nil
			}
		}
		return fmt.Errorf("%s: unexpected success", what)
	}
	if t.Hdr != "" && strings.Contains(t.Hdr, "as=Table") {
		return nil
	}
	for k, v := range q {
		if (k == "fieldManager" || k == "resourceVersion") && strings.HasPrefix(v[0], "dsm-cluster-") {
			return nil // a marker of the client library where it puts none
		}
		if k != "labelSelector" && k != "limit" && k != "timeout" && k != "timeoutSeconds" {
			return fmt.Errorf("%s: option %q ignored", what, k)
		}
	}
	l, items, err := world.ParseList(a)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	m := meaning(q.Get("labelSelector"), ns)
	if !m.known {
		return nil
	}
	if m.bad {
		return fmt.Errorf("%s: malformed, yet answered with %v", what, world.Keys(items))
	}
	if got := strings.Join(world.Keys(items), " "); got != strings.Join(m.keys, " ") || fmt.Sprint(l.Metadata["remainingItemCount"]) != fmt.Sprint(m.rest) {
		return fmt.Errorf("%s: got [%s] and %v remaining, want %v and %d", what, got, l.Metadata["remainingItemCount"], m.keys, m.rest)
	}
	x.State(strings.Join(m.keys, " ") + fmt.Sprint(m.rest))
	return nil
}

func exec(x *mc.X, t Case) error {
	w := pool.Get().(*world.World)
	probeOnce.Do(func() { probed = probe(w) })
	if err := check(x, w, t); err != nil {
		return err // the world is not used again
	}
	for i, p := range probe(w) {
		if p != probed[i] {
			return fmt.Errorf("after %s: probe request %d is answered %s, before it was %s", mc.J(t), i, p, probed[i])
		}
	}
	pool.Put(w)
	return nil
}

// words over tokens, joined, up to n long, each text once.
func words(tokens []string, n int, emit func(string) bool) bool {
	seen := map[string]bool{}
	for l := 0; l <= n; l++ {
		if !mc.Words(len(tokens), l, func(w []int) bool {
			var sb strings.Builder
			for _, i := range w {
				sb.WriteString(tokens[i])
			}
			if seen[sb.String()] {
				return true
			}
			seen[sb.String()] = true
			return emit(sb.String())
		}) {
			return false
		}
	}
	return true
}

func b64(s string) string { return base64.RawStdEncoding.EncodeToString([]byte(s)) }

// inSel puts an encoded text into the selector, if it is a possible label value at all.
func inSel(v string) string { return queryKey + " notin (" + v + ")" }

var options = []string{"limit", "timeout", "timeoutSeconds", "labelSelector", "fieldSelector", "continue", "resourceVersion", "resourceVersionMatch", "watch", "allowWatchBookmarks", "sendInitialEvents", "cluster", "fieldManager", "dryRun", "pretty", "includeObject", "gracePeriodSeconds", "namespace", "name", "page", "sort", "LIMIT"}
var optionValues = []string{"", "0", "1", "-1", "-9223372036854775809", "9223372036854775808", "1e400", "1.5", "1s", "-1s", "99999999h", "true", "false", "TRUE", "null", "c2", "none", "dsm-cluster-", "dsm-cluster-none", "\x00", "\xff", "é", "a=1", " ", "{}", "..", "%"}

func main() {
	selTokens := []string{"a", "b", "=", "!", "(", ")", ",", " ", " in ", "notin", ">", "1", queryKey, inSel(b64(`{"search":"k=3"}`)), "é", "\x00"}
	jsonTokens := []string{"{", "}", `"page":`, `"page_size":`, `"search":`, `"sort":`, `"total":`, "1", "-1", "null", "[", "]", `"k"`, `"k=3"`, ",", "1.5", "1e2", "true", `"`, "\xff", "9223372036854775808", `{"page":2,"page_size":1}`}
	values := []string{"0", "1", "2", "-1", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "1.0", "1.5", "1e1", "1e400", `"1"`, `""`, "null", "true", "[]", "{}", "[1]", `"k"`, `"k desc"`, `"nosuch"`, `"k=3"`, `"nosuch=1"`, `"k!int"`, `"t!int"`, `"__ckube_as__:"`, `"__ckube_as__:k in ("`, `"__ckube_as__:nosuch=1"`, `"__ckube_as__:k=3"`, `";"`, `"\u0000"`, `"\ud800"`, `"é"`, `"!"`, `"="`, `"!!"`, `"=k"`, `"k="`}
	fields := []string{"page", "page_size", "search", "sort", "total", "Page", "unknown", ""}
	sortTokens := []string{"k", "name", "t", "nosuch", " ", ",", "!", "int", "str", "desc", "asc", "DESC", ";", "é"}
	searchTokens := []string{"k", "3", "name", "nosuch", "=", "!", ";", `"`, " ", "__ckube_as__:", "in", "(", ")", ",", ">", "\\", "é", "\x00"}
	bodies := []string{"", "{", "{}", "[]", "null", "x", "\x00\xff", `{"dryRun":`, `{"dryRun":null}`, `{"dryRun":[]}`, `{"dryRun":{}}`, `{"dryRun":"dsm-cluster-c2"}`, `{"dryRun":[""]}`, `{"dryRun":[null]}`, `{"dryRun":[1]}`, `{"dryRun":["dsm-cluster-"]}`, `{"dryRun":["dsm-cluster-c2"]}`, `{"dryRun":["dsm-cluster-none"]}`, `{"dryRun":["All","dsm-cluster-c2"]}`, `{"dryRun":["dsm-cluster-c2"]}}`, `{"gracePeriodSeconds":"x","dryRun":["dsm-cluster-c2"]}`, `{"preconditions":5}`, strings.Repeat("[", 20000), `{"kind":"DeleteOptions","apiVersion":"v1","gracePeriodSeconds":99999999999999999999}`, strings.Repeat("x", 100000)}
	paths := []string{"/", "//", "/api", "/api/", "/api/v1", "/api/v1/", "/api//pods", "/api/v1//pods", "/api/v1/pods/", "/api/v1/pods//", "/api/v1/namespaces//pods", "/api/v1/namespaces/n1/pods/", "/api/v1/namespaces/n1/pods/a/", "/api/v1/namespaces/n1/pods/../pods", "/api/v1/namespaces/n1/../n2/pods", "/api/v1/namespaces/../pods", "/api/v1/%2e%2e/pods", "/api/v1/namespaces/n1%2Fpods/a", "/api/v1/namespaces/n1/pods/a%2Fb", "/api/v1/namespaces/n1/pods/%00", "/api/v1/namespaces/n1/pods/%ff", "/api/v1/namespaces/n1/pods/%25", "/api/v1/namespaces/%20/pods", "/api/v1/namespaces/n1/pods/a b", "/api/v1/namespaces/n1/pods/a", "/api/v1/namespaces/n1/pods/A", "/api/v1/pods", "/api/v1/pods;x=1", "/api/v1/pods%3Fwatch=true", "/api/v1/pods%23", "/API/v1/pods", "/api/V1/pods", "/api/v1/" + strings.Repeat("x", 20000), "/api/v1/namespaces/" + strings.Repeat("n/", 3000), "/apis", "/apis/", "/apis//v1/pods", "/apis/x.io//widgets", "/apis/x.io/v1/", "/apis/x.io", "/apis/x.io/v1/widgets/x/y/z", "/apis/v1/pods", "/custom", "/custom/v1", "/custom/v1/namespaces//deployments//services", "/custom/v1/namespaces/n1/deployments/web/services", "/custom/v1/namespaces/n1/deployments/%00/services", "/custom/v1/clusters/none/namespaces/n1/deployments/web/services", "/custom/v1/clusters/%22;x/namespaces/n1/deployments/web/services", "/custom/v1/clusters/a%2Fb/namespaces/n1/deployments/web/services", "/custom/v1/clusters//namespaces/n1/deployments/web/services", "/healthy", "/metrics", "/healthy/", "/watch/", "/api/v1/watch/", "/api/v1/namespaces/watch/pods", "/*", "*", "é", "/é", "/api/v1/名/pods", "/.well-known/x", "/\\", "/api/v1\\pods", "/api/v1/pods%0a", "/%2e%2e/%2e%2e/etc/passwd"}
	rawTokens := []string{"labelSelector", "=", "&", ";", "%", "%zz", "%00", "cluster", "watch", "limit", "a", "dsm-cluster-", "fieldManager", "%26", "+", "c2", "none"}
	qsel := func(js string) Case { return Case{Sel: gen.EncodeText(js)} }
	mc.Main(mc.Def{ID: "C24",
		Oracle: "a malformed request is refused with a 4xx Status or forwarded once; a success from the cache must be the content a strict reference decoder assigns to the request; four probe requests are answered as before",
		Assume: []string{"badly percent-encoded options are dropped, as Kubernetes API servers do", "redirects of paths with superfluous slashes or dots are the router's"},
		Quick:  100 * time.Second, Long: 780 * time.Second,
		Families: []mc.Family{
			mc.Cases("selectors", mc.Opts{Bound: fmt.Sprintf("all words of up to 3 (thorough 4) of %d tokens as label selector", len(selTokens)), Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					words(selTokens, mc.Pick(c, 3, 4), func(s string) bool { return emit(Case{Sel: s}) })
				}, exec),
			mc.Cases("option values", mc.Opts{Bound: fmt.Sprintf("each of %d options with each of %d values on 13 paths with 3 methods, and pairs of them on 2 paths (quick: every fifth)", len(options), len(optionValues)), Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					n := 0
					for i, o := range options {
						for _, v := range optionValues {
							for _, p := range []string{"/api/v1/pods", "/api/v1/namespaces/n1/pods", "/api/v1/namespaces/n1/pods/a", "/api/v1/namespaces/n1/pods/nosuch", "/api/v1/namespaces/n9/pods", "/api/v1/secrets", "/api/v1/namespaces/n1/secrets/s", "/api/v1/namespaces/n1/pods/a/log", "/custom/v1/namespaces/n1/deployments/web/services", "/api/v1/watch/pods", "/version", "/apis"} {
								for _, m := range []string{"GET", "POST", "DELETE"} {
									if !emit(Case{M: m, P: p, Raw: o + "=" + url.QueryEscape(v)}) || !emit(Case{M: m, P: p, Raw: o + "=" + url.QueryEscape(v) + "&" + o + "="}) {
										return
									}
								}
							}
							for _, o2 := range options[i+1:] {
								for _, v2 := range optionValues {
									for _, p := range []string{"/api/v1/pods", "/api/v1/namespaces/n1/pods/a"} {
										if n++; (c.Thorough() || n%5 == 0) && !emit(Case{P: p, Raw: o + "=" + url.QueryEscape(v) + "&" + o2 + "=" + url.QueryEscape(v2)}) {
											return
										}
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("raw-payload", mc.Opts{Bound: "all texts of up to 3 characters of 16 as encoded query, in four kinds of requirement", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					al := strings.Split("e,3,0,=,-,.,_,A,Q,J,y,bnVsbA,W10,IiI,MTI,1234.", ",")
					words(al, mc.Pick(c, 2, 3), func(s string) bool {
						for _, f := range []string{queryKey + " notin (%s)", queryKey + " in (%s)", queryKey + "=%s", queryKey + "!=%s", queryKey + " notin (%s,0000.e30)", queryKey + " notin (0000.e,%s)"} {
							if !emit(Case{Sel: fmt.Sprintf(f, s)}) {
								return false
							}
						}
						return true
					})
				}, exec),
			mc.Cases("json", mc.Opts{Bound: fmt.Sprintf("all words of up to 3 (thorough 4) of %d tokens as the query's JSON text, also inside braces", len(jsonTokens)), Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					words(jsonTokens, mc.Pick(c, 3, 4), func(s string) bool {
						return emit(qsel(s)) && emit(qsel("{"+s+"}")) && emit(Case{Sel: inSel(b64(s))})
					})
				}, exec),
			mc.Cases("fields", mc.Opts{Bound: fmt.Sprintf("every field with every one of %d values, alone and in pairs", len(values)), Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for i, f := range fields {
						for _, v := range values {
							if !emit(qsel(fmt.Sprintf(`{"%s":%s}`, f, v))) || !emit(Case{P: "/api/v1/namespaces/n1/pods", Sel: "a," + qsel(fmt.Sprintf(`{"%s":%s}`, f, v)).Sel}) {
								return
							}
							for _, g := range fields[i:] {
								for _, u := range values {
									if !emit(qsel(fmt.Sprintf(`{"%s":%s,"%s":%s}`, f, v, g, u))) {
										return
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("parts", mc.Opts{Bound: "a query of 6 parts: every subset of the parts, every pair swapped, every number changed, every part repeated under another number, emptied or cut", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					full := page.Paginate{Search: "__ckube_as__:k in (3," + strings.Repeat("1234567890123456789012345678901234567890,", 6) + "1)", Sort: "name"}
					e := gen.Encode(full)
					ps := strings.Split(e[strings.Index(e, "(")+1:len(e)-1], ",")
					n := len(ps)
					put := func(p []string) bool { return emit(Case{Sel: queryKey + " notin (" + strings.Join(p, ",") + ")"}) }
					if !put(ps) {
						return
					}
					mc.Subsets(n, func(mask int) bool {
						var s []string
						for i := range ps {
							if mask&(1<<i) != 0 {
								s = append(s, ps[i])
							}
						}
						return len(s) == 0 || put(s)
					})
					for i := 0; i < n; i++ {
						for j := 0; j < n; j++ {
							s := append([]string{}, ps...)
							s[i] = ps[i][:5] + ps[j][5:]
							s[j] = ps[j][:5] + ps[i][5:]
							if !put(s) {
								return
							}
						}
						for _, num := range []string{"0000.", "0001.", "0055.", "0056.", "0057.", "0112.", "9999.", "10000.", "56.", "-056.", ".", "", "x.", "0056", "0056..", "0x38.", "+056.", "99999999999999999999."} {
							s := append([]string{}, ps...)
							s[i] = num + ps[i][5:]
							if !put(s) || !put(append(append([]string{}, ps...), num+ps[i][5:])) {
								return
							}
						}
						for _, cut := range []string{"", "A", ps[i][5:7], ps[i][5 : len(ps[i])-1], ps[i][5:] + "A", ps[i][5:] + "."} {
							s := append([]string{}, ps...)
							s[i] = ps[i][:5] + cut
							if !put(s) {
								return
							}
						}
					}
				}, exec),
			mc.Cases("sorts", mc.Opts{Bound: fmt.Sprintf("all words of up to 4 (thorough 5) of %d tokens as sort", len(sortTokens)), Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					words(sortTokens, mc.Pick(c, 3, 5), func(s string) bool { return emit(Case{Sel: gen.Encode(page.Paginate{Sort: s})}) })
				}, exec),
			mc.Cases("searches", mc.Opts{Bound: fmt.Sprintf("all words of up to 3 (thorough 4) of %d tokens as search", len(searchTokens)), Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					words(searchTokens, mc.Pick(c, 3, 4), func(s string) bool { return emit(Case{Sel: gen.Encode(page.Paginate{Search: s})}) })
				}, exec),
			mc.Cases("paths", mc.Opts{Bound: fmt.Sprintf("%d paths x 12 methods x bad options", len(paths)), Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, p := range paths {
						for _, m := range []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "FOO", "get", "G T"} {
							if m == "G T" {
								m = "PROPFIND"
							}
							for _, raw := range []string{"", "labelSelector=%28", "labelSelector=" + url.QueryEscape(inSel("!")), "watchx", "fieldManager=dsm-cluster-none"} {
								if (raw == "" || len(p) < 1000) && !emit(Case{M: m, P: p, Raw: raw}) {
									return
								}
							}
						}
					}
				}, exec),
			mc.Cases("bodies", mc.Opts{Bound: fmt.Sprintf("%d bodies x 6 methods x 7 content types x 3 paths", len(bodies)), Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, b := range bodies {
						for _, m := range []string{"DELETE", "POST", "PUT", "PATCH", "GET", "OPTIONS"} {
							for _, ct := range []string{"", "application/json", "application/merge-patch+json", "x", ";", "application/vnd.kubernetes.protobuf", "\x01"} {
								for _, p := range []string{"/api/v1/namespaces/n1/pods/a", "/api/v1/pods", "/x"} {
									if !emit(Case{M: m, P: p, Body: b, CT: ct}) {
										return
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("options", mc.Opts{Bound: fmt.Sprintf("all words of up to 3 (thorough 4) of %d tokens as raw query string", len(rawTokens)), Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					words(rawTokens, mc.Pick(c, 3, 4), func(s string) bool {
						return emit(Case{Raw: s}) && emit(Case{P: "/api/v1/services", Raw: s})
					})
				}, exec),
			mc.Cases("headers", mc.Opts{Bound: "odd header values on lists, gets and forwarded requests", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					hs := []string{"*/*", ";", "application/json;as=Table", "as=Table", "application/json;as=Table;v=x", "application/yaml", "application/vnd.kubernetes.protobuf", strings.Repeat("a", 100000), "\x80", "\"", ",,,,", "Bearer", "Bearer "}
					sort.Strings(hs)
					for _, h := range hs {
						for _, p := range []string{"/api/v1/pods", "/api/v1/namespaces/n1/pods/a", "/api/v1/namespaces/n1/pods", "/api/v1/services", "/custom/v1/namespaces/n1/deployments/d/services"} {
							for _, m := range []string{"GET", "POST", "DELETE"} {
								if !emit(Case{M: m, P: p, Hdr: h}) {
									return
								}
							}
							if !emit(Case{P: p, Hdr: h, Raw: "labelSelector=a%3D1"}) {
								return
							}
						}
					}
				}, exec),
		},
	})
}
