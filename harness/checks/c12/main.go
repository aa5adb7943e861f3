// C12: requests are served from the cache or forwarded unchanged.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing/iotest"

	"k8s.io/apimachinery/pkg/labels"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
)

var (
	cfg  common.Config
	pool sync.Pool
)

func setup(c *mc.Ctx) {
	cfg = gen.Config("c1", "k")
	cfg.Proxies = append(cfg.Proxies, world.Proxy("", "v1", "namespaces", "Namespace", gen.IndexKeys()), world.Proxy("apps", "v1", "deployments", "Deployment", gen.IndexKeys()))
	world.New(cfg)
	pool = sync.Pool{New: func() interface{} {
		w := world.New(cfg, "c1", "c2", "a b/c")
		for _, cl := range []string{"c1", "c2"} {
			for _, ns := range []string{"m1", "m2"} {
				gen.Fill(w.Store, []gen.Spec{{C: cl, N: ns, O: "p1", L: map[string]string{"a": "1"}}, {C: cl, N: ns, O: "p2"}}, true, true)
			}
			gen.Fill(w.Store, []gen.Spec{{C: cl, O: "p1"}}, true, true)
			_ = w.Store.OnResourceAdded(world.GVR("", "v1", "namespaces"), cl, gen.Spec{O: "m1"}.Custom())
			_ = w.Store.OnResourceAdded(world.GVR("apps", "v1", "deployments"), cl, gen.Spec{N: "m1", O: "p1"}.Custom())
		}
		return w
	}}
}

// The cached collections and single objects.
var cachedPaths = map[string]string{ // path -> "list" or "get <found>"
	"/api/v1/pods": "list", "/api/v1/namespaces/m1/pods": "list", "/apis/x.io/v1/widgets": "list", "/apis/x.io/v1/namespaces/m2/widgets": "list", "/api/v1/namespaces": "list", "/apis/apps/v1/namespaces/m1/deployments": "list", "/apis/apps/v1/deployments": "list",
	"/api/v1/namespaces/m1/pods/p1": "get", "/api/v1/namespaces/m1/pods/none": "404", "/apis/x.io/v1/namespaces/m2/widgets/p2": "get", "/api/v1/namespaces/m1": "get", "/api/v1/namespaces/none": "404", "/apis/apps/v1/namespaces/m1/deployments/p1": "get", "/api/v1/pods/p1": "get", "/apis/x.io/v1/widgets/p1": "get", "/api/v1/namespaces/nons/pods": "list",
	"/api/v1/namespaces/m1/pods/status": "404", "/api/v1/namespaces/m1/pods/log": "404", "/api/v1/namespaces/pods": "404", "/api/v1/namespaces/status": "404", "/api/v1/namespaces/namespaces": "404", "/api/v1/namespaces/watch": "404",
	"/api/v1/namespaces/pods/pods": "empty", "/api/v1/namespaces/status/pods": "empty", "/apis/apps/v1/namespaces/deployments/deployments": "empty", "/api/v1/namespaces/namespaces/pods": "empty", "/apis/x.io/v1/namespaces/widgets/widgets/widgets": "404",
}

var otherPaths = []string{
	"/api/v1/services", "/api/v1/namespaces/m1/services", "/api/v1/namespaces/m1/services/s1", "/apis/x.io/v2/widgets", "/apis/x.io/v1/pods", "/api/v2/pods", "/apis/other.io/v1/widgets", "/apis/x.io/v1/namespaces/m1/pods", "/apis/apps/v1beta1/deployments",
	"/version", "/api", "/apis", "/api/v1", "/apis/x.io", "/apis/x.io/v1", "/openapi/v2", "/", "/healthz", "/livez/ping", "/logs/kube-apiserver.log", "/api/v1/nodes/n1", "/api/v1/nodes",
	"/api/v1/namespaces/m1/pods/p1/log", "/api/v1/namespaces/m1/pods/p1/status", "/api/v1/namespaces/m1/pods/p1/exec", "/api/v1/namespaces/m1/pods/p1/eviction", "/api/v1/namespaces/m1/pods/p1/proxy/a/b", "/apis/x.io/v1/namespaces/m1/widgets/w1/scale", "/apis/x.io/v1/widgets/w1/status",
	"/api/v1/namespaces/m1/status", "/api/v1/namespaces/m1/finalize", "/apis/apps/v1/namespaces/m1/deployments/p1/scale", "/api/v1/namespaces/m1/services/s1/proxy/x%20y", "/api/v1/namespaces/m1/serviceaccounts/a/token",
	"/api/v1/watch/pods", "/api/v1/watch/namespaces/m1/pods", "/apis/authorization.k8s.io/v1/selfsubjectaccessreviews", "/api/v1/namespaces/m1/configmaps/%E5%90%8D", "/api/v1/namespaces/m1/configmaps/a%3Ab", "/api/v1/componentstatuses", "/pods", "/v1/pods", "/api/v1/podsx", "/api/v1/Pods", "/api/v1/namespaces/m1/pod",
	"/api/v1/namespaces/watch/services", "/api/v1/namespaces/watch/configmaps/watch", "/api/v1/nodes/watch/proxy/a", "/api/v1/namespaces/m1/services/s1/proxy/watch/x", "/apis/x.io/v1/namespaces/watch/gadgets", "/apis/batch/v1/watch/jobs", "/apis/watch/v1/things",
	"/healthy/x", "/metricsx", "/custom/v1/x", "/custom/v1/namespaces/m1/deployments/d/services/x",
}

// The paths of watches of old clients.
var deprecatedWatch = regexp.MustCompile("^/(api|apis/[^/]+)/[^/]+/watch/")

// Query options as raw query strings. local: the cache implements them.
var queries = []struct {
	raw   string
	local bool
}{
	{"", true}, {"limit=500", true}, {"timeoutSeconds=30", true}, {"timeout=10s", true}, {"limit=1&timeout=5s&timeoutSeconds=5", true}, {"labelSelector=", true}, {"labelSelector=a%3D1", true}, {"labelSelector=a+in+%281%2C2%29%2C%21b&limit=3", true}, {"labelSelector=a%21%3D1", true},
	{"resourceVersion=0", false}, {"resourceVersion=12&resourceVersionMatch=Exact", false}, {"fieldSelector=metadata.name%3Dp1", false}, {"fieldSelector=", false}, {"continue=tok%2B%2F%3D&limit=2", false}, {"pretty=true", false}, {"labelSelector=a%3D1&fieldSelector=x%3Dy%2Cz%21%3Dw", false},
	{"dryRun=All", false}, {"dryRun=All&fieldManager=me", false}, {"fieldManager=me", false}, {"fieldManager=", false}, {"fieldValidation=Strict", false}, {"force=true&fieldManager=x%20y", false}, {"gracePeriodSeconds=0&propagationPolicy=Foreground", false}, {"allowWatchBookmarks=true", false},
	{"x=1&x=2&x=3", false}, {"x=2&x=1", false}, {"x", false}, {"x=a%26b%3Dc%2Bd+e%25", false}, {"x=%E5%90%8D", false}, {"command=a&command=b+c&container=x", false}, {"tailLines=5&follow=false", false}, {"labelSelector=a%3E1", false}, {"labelSelector=a%3D%3D%3D", false}, {"labelSelector=a%3D1%2Ca%3D2&pretty=1", false}, {"labelSelector=in%28&x=1", false},
	{"fieldManager=dsm-clusterx", false}, {"resourceVersion=dsm-cluster", false}, {"resourceVersion=xdsm-cluster-c2", false}, {"sendInitialEvents=false", false}, {"as=x", false}, {"labelSelector=a%3D1&labelSelector=b%3D1&x=1", false},
}

// Single options of which pairs are added to queries.
var single = []struct {
	raw   string
	local bool
}{
	{"labelSelector=a%3D1", true}, {"labelSelector=", true}, {"limit=3", true}, {"limit=0", true}, {"timeout=10s", true}, {"timeoutSeconds=30", true},
	{"resourceVersion=0", false}, {"resourceVersion=", false}, {"resourceVersionMatch=NotOlderThan", false}, {"fieldSelector=metadata.name%3Dp1", false}, {"fieldSelector=", false}, {"continue=t", false}, {"continue=", false}, {"pretty=true", false}, {"pretty=", false},
	{"dryRun=All", false}, {"fieldManager=me", false}, {"fieldValidation=Strict", false}, {"force=true", false}, {"gracePeriodSeconds=0", false}, {"propagationPolicy=Orphan", false}, {"orphanDependents=true", false}, {"allowWatchBookmarks=true", false}, {"watch=false", false}, {"watch=0", false}, {"sendInitialEvents=true", false}, {"export=true", false}, {"exact=true", false}, {"includeObject=None", false},
	{"follow=false", false}, {"container=a", false}, {"tailLines=1", false}, {"x=", false}, {"page=1", false}, {"pageSize=2", false}, {"search=a", false}, {"sort=a", false}, {"namespace=m2", false}, {"name=p2", false}, {"Limit=3", false}, {"labelselector=a", false}, {"clusters=c2", false},
}

var base = len(queries)

var isWatch = map[string]bool{"true": true, "1": true, "y": true}

// watches are the positions of the queries of watches.
var watches []int

func init() {
	defer func() {
		for _, sel := range []string{"", "a=1", "!b", "!a,!b", "a", "a in (1,2)", "a notin (1),b", "a!=1", "a>1", "a=1,a=2", "x.io/a=1,b", "!a,b=1", "b=2,!a", "a=", "a in (,1)", "a=b=c", "-a"} {
			for _, form := range []string{"watch=true", "watch=1", "watch=True", "watch=true&resourceVersion=12", "watch=true&timeoutSeconds=300&allowWatchBookmarks=true", "watch=true&fieldSelector=metadata.name%3Dp1", "watch=true&watch=false", "resourceVersion=0&watch=true&resourceVersionMatch=NotOlderThan&sendInitialEvents=true", "limit=2&watch=true"} {
				if sel != "" {
					form += "&labelSelector=" + url.QueryEscape(sel)
				}
				watches = append(watches, len(queries))
				queries = append(queries, struct {
					raw   string
					local bool
				}{form, false})
			}
		}
	}()
	for i, a := range single {
		queries = append(queries, a)
		for _, b := range single[i+1:] {
			if ka, _, _ := strings.Cut(a.raw, "="); strings.HasPrefix(b.raw, ka+"=") {
				continue
			}
			queries = append(queries, struct {
				raw   string
				local bool
			}{a.raw + "&" + b.raw, a.local && b.local}, struct {
				raw   string
				local bool
			}{b.raw + "&" + a.raw, a.local && b.local})
		}
	}
}

// How the cluster is addressed.
var addr = []string{"", "fm c2", "rv c2", "cluster c2", "fm none", "rv none", "cluster none", "query c2", "query c1,c2", "dry c2", "fm a b/c", "dry none", "rv a b/c", "fm dsm-cluster-c2", "cluster a b/c"}

// Case of a request.
type Case struct {
	M, P string
	Q    int
	A    string `json:",omitempty"`
	B    string `json:",omitempty"`
	CT   string `json:",omitempty"`
	Chk  bool   `json:",omitempty"` // the length of the body is not announced
}

func norm(sel string) string {
	rs, err := labels.ParseToRequirements(sel)
	if err != nil {
		return "!" + sel
	}
	var r []string
	for _, q := range rs {
		op := string(q.Operator())
		switch op {
		case "=", "==":
			op = "in"
		case "!=":
			op = "notin"
		}
		if q.Key() == "ckube.daocloud.io/query" {
			continue
		}
		v := q.Values().List()
		sort.Strings(v)
		r = append(r, fmt.Sprint(q.Key(), op, v))
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}

func big(b string) string {
	if b == "BIG" {
		return strings.Repeat("0123456789abcdef", 3<<16) + "x" // 3 MiB, more than any limit of an API server
	}
	return b
}

func exec(x *mc.X, c Case) error {
	w := pool.Get().(*world.World)
	defer pool.Put(w)
	defer w.Taken()
	w.Taken()
	raw := queries[c.Q].raw
	vals, perr := url.ParseQuery(raw)
	if perr != nil {
		return perr
	}
	want, _ := url.ParseQuery(raw)
	body, wantBody := big(c.B), big(c.B)
	target := "c1"
	kind, t, _ := strings.Cut(c.A, " ")
	local := queries[c.Q].local
	jsonBody := false
	switch kind {
	case "fm", "rv":
		k := map[string]string{"fm": "fieldManager", "rv": "resourceVersion"}[kind]
		if vals.Get(k) != "" || vals.Has(k) {
			return nil
		}
		vals.Set(k, "dsm-cluster-"+t)
		target = t
	case "cluster":
		vals.Set("cluster", t)
		want.Set("cluster", t)
		target = t
		local = false
	case "query":
		if len(vals["labelSelector"]) > 1 {
			return nil
		}
		pg := page.Paginate{Search: "__ckube_as__:cluster in (" + t + ")"}
		s := gen.Encode(pg)
		if o := vals.Get("labelSelector"); o != "" {
			if strings.HasPrefix(norm(o), "!") || strings.Contains(o, ">") {
				return nil
			}
			s += "," + o
		}
		vals.Set("labelSelector", s)
		target = strings.Split(t, ",")[0]
	case "dry":
		if c.M != "DELETE" {
			return nil
		}
		opts := c.B
		if c.B[:1] != "{" || strings.Contains(c.B, "x<y") {
			opts = `{"kind":"DeleteOptions","apiVersion":"v1","gracePeriodSeconds":5}`
		}
		m := map[string]interface{}{}
		if err := json.Unmarshal([]byte(opts), &m); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		wantBody = mc.J(m)
		dr, _ := m["dryRun"].([]interface{})
		m["dryRun"] = append([]interface{}{"dsm-cluster-" + t}, dr...)
		body = mc.J(m)
		jsonBody = true
		target = t
	}
	var hdr []string
	if c.CT != "" {
		hdr = []string{"Content-Type", c.CT}
	}
	q := vals.Encode()
	if c.A == "" {
		q = raw
	}
	pth := c.P
	if q != "" {
		pth += "?" + q
	}
	req := world.Req(c.M, pth, nil, body, hdr...)
	if c.Chk {
		req.ContentLength, req.TransferEncoding = -1, []string{"chunked"}
		req.Body = io.NopCloser(iotest.OneByteReader(strings.NewReader(body)))
		if len(body) > 1<<20 {
			req.Body = io.NopCloser(strings.NewReader(body))
		}
	}
	r := w.Do(req)
	up := w.Taken()
	x.Step(1)
	x.State(fmt.Sprint(c.M, c.P, c.Q, c.A, c.B, c.CT, c.Chk))
	u, _ := url.Parse(c.P)
	ck := cachedPaths[c.P]
	if c.M == "GET" && ck != "" && local {
		x.Outcome("cache " + ck)
		if len(up) > 0 {
			return fmt.Errorf("%s %s is cached, but the API server got %v", c.M, pth, up)
		}
		switch {
		case ck == "empty":
			_, its, err := world.ParseList(r)
			if err != nil || len(its) > 0 {
				return fmt.Errorf("%s: %v %v", pth, err, its)
			}
		case ck == "list":
			_, its, err := world.ParseList(r)
			if err != nil {
				return err
			}
			if strings.HasSuffix(c.P, "s1/pods") == false && !strings.Contains(c.P, "nons") && len(its) == 0 && target != "none" && target != "a b/c" && !strings.Contains(raw, "labelSelector=a") {
				return fmt.Errorf("%s: empty list", pth)
			}
		case ck == "404" || target == "none" || target == "a b/c" || target == "dsm-cluster-c2":
			if r.Code != 404 {
				return fmt.Errorf("%s: status %d want 404", pth, r.Code)
			}
		default:
			var it world.Item
			if r.Code != 200 || json.Unmarshal(r.Body, &it) != nil || it.Metadata.Name != c.P[strings.LastIndex(c.P, "/")+1:] {
				return fmt.Errorf("%s: status %d %s", pth, r.Code, r.Body)
			}
		}
		return nil
	}
	if target != "c1" && target != "c2" && target != "a b/c" {
		x.Outcome("unknown cluster")
		if len(up) > 0 {
			return fmt.Errorf("%s %s for an unknown cluster was forwarded: %v", c.M, pth, up)
		}
		if r.Code != 404 {
			return fmt.Errorf("%s %s for an unknown cluster: status %d %s", c.M, pth, r.Code, r.Body)
		}
		return nil
	}
	if len(up) != 1 {
		return fmt.Errorf("%s %s should reach cluster %q once: %v (answer %d %s)", c.M, pth, target, up, r.Code, r.Body)
	}
	g := up[0]
	if g.Cluster != target || g.Method != c.M || g.Path != u.Path {
		return fmt.Errorf("%s %s for cluster %q was forwarded as %v", c.M, pth, target, g)
	}
	gq, err := url.ParseQuery(g.RawQ)
	if err != nil {
		return err
	}
	watch := deprecatedWatch.MatchString(c.P) || isWatch[strings.ToLower(vals.Get("watch"))]
	if watch {
		gq.Del("timeout")
		want.Del("timeout")
	}
	if len(want["labelSelector"]) <= 1 {
		gs, ws := gq["labelSelector"], want["labelSelector"]
		gq.Del("labelSelector")
		want.Del("labelSelector")
		if norm(strings.Join(gs, "\x00")) != norm(strings.Join(ws, "\x00")) {
			return fmt.Errorf("%s %s: selector %q forwarded as %q", c.M, pth, ws, gs)
		}
	} else { // an API server looks at the first only
		gq.Del("labelSelector")
		want.Del("labelSelector")
	}
	if !reflect.DeepEqual(gq, want) {
		return fmt.Errorf("%s %s: query forwarded as %v want %v", c.M, pth, gq, want)
	}
	if c.M != "GET" && c.M != "HEAD" && c.M != "OPTIONS" {
		if jsonBody {
			var a, b map[string]interface{}
			_ = json.Unmarshal([]byte(g.Body), &a)
			_ = json.Unmarshal([]byte(wantBody), &b)
			if !reflect.DeepEqual(a, b) {
				return fmt.Errorf("%s %s: body forwarded as %q want %q", c.M, pth, g.Body, wantBody)
			}
		} else if g.Body != wantBody {
			return fmt.Errorf("%s %s: body of %d bytes forwarded as %d bytes %.200q", c.M, pth, len(wantBody), len(g.Body), g.Body)
		}
	}
	if c.M == "PATCH" && g.Header.Get("Content-Type") != c.CT {
		return fmt.Errorf("patch type %q forwarded as %q", c.CT, g.Header.Get("Content-Type"))
	}
	if r.Code != 200 || c.M != "HEAD" && string(r.Body) != `{"upstream":"`+target+`"}` {
		return fmt.Errorf("%s %s: answer %d %s", c.M, pth, r.Code, r.Body)
	}
	x.Outcome("forwarded " + c.M)
	x.Sample(map[string]string{"request": c.M + " " + pth, "forwarded": g.String()})
	return nil
}

// Answer of the API server.
type Answer struct {
	M, P string
	Code int
	Body string
	CT   string
	St   [2]string // reason and message, when the body is a status
	Own  int       `json:",omitempty"` // code within the status if not Code, -1: none
}

func execAnswer(x *mc.X, c Answer) error {
	w := pool.Get().(*world.World)
	defer pool.Put(w)
	body := big(c.Body)
	if c.St[0] != "" || c.St[1] != "" {
		m := map[string]interface{}{"kind": "Status", "apiVersion": "v1", "metadata": map[string]interface{}{}, "status": "Failure", "reason": c.St[0], "message": c.St[1], "code": c.Code}
		if c.Own > 0 {
			m["code"] = c.Own
		} else if c.Own < 0 {
			delete(m, "code")
		}
		b, _ := json.Marshal(m)
		body = string(b)
	}
	for _, u := range w.Ups {
		u := u
		u.Handler = func(r *http.Request, _ []byte) (*http.Response, error) {
			res := world.Response(r, c.Code, body)
			res.Header.Set("Content-Type", c.CT)
			return res, nil
		}
		defer func() { u.Handler = nil }()
	}
	w.Taken()
	in := ""
	if c.M != "GET" {
		in = "{}"
	}
	r := w.Do(world.Req(c.M, c.P, nil, in, "Content-Type", "application/merge-patch+json"))
	up := w.Taken()
	x.Step(1)
	x.State(mc.J(c))
	x.Outcome(fmt.Sprint(r.Code, len(r.Body)))
	if len(up) != 1 {
		return fmt.Errorf("forwarded %d times", len(up))
	}
	if c.Code < 300 {
		if r.Code < 200 || r.Code >= 300 {
			return fmt.Errorf("success %d relayed as %d", c.Code, r.Code)
		}
		if string(r.Body) != body {
			return fmt.Errorf("body of %d bytes relayed as %d bytes: %.200q", len(body), len(r.Body), r.Body)
		}
		return nil
	}
	if r.Code != c.Code {
		return fmt.Errorf("error %d relayed as %d %s", c.Code, r.Code, r.Body)
	}
	var st struct {
		Kind, Reason, Message string
		Code                  int
	}
	if err := json.Unmarshal(r.Body, &st); err != nil {
		return fmt.Errorf("error %d relayed as non-JSON %q", c.Code, r.Body)
	}
	if st.Kind != "Status" || c.Own == 0 && st.Code != c.Code {
		return fmt.Errorf("error %d relayed as %s", c.Code, r.Body)
	}
	if c.St[0] != "" || c.St[1] != "" {
		if st.Reason != c.St[0] || st.Message != c.St[1] {
			return fmt.Errorf("error %v relayed as %s", c.St, r.Body)
		}
	}
	return nil
}

func main() {
	methods := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"}
	cts := []string{"application/json-patch+json", "application/merge-patch+json", "application/strategic-merge-patch+json", "application/apply-patch+yaml", "application/merge-patch+json; charset=utf-8"}
	body := func(m string) string {
		if m == "GET" || m == "HEAD" || m == "OPTIONS" {
			return ""
		}
		return `{"a": 1.0, "b":"x<y"}`
	}
	ct := func(m string, i int) string {
		if m == "PATCH" {
			return cts[i%len(cts)]
		}
		return ""
	}
	var paths []string
	for p := range cachedPaths {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	paths = append(paths, otherPaths...)
	mc.Main(mc.Def{
		ID:     "C12",
		Oracle: "a decision table over (method, path, options) and recording API servers behind the real clients",
		Assume: []string{"the cache implements labelSelector, limit, timeout and timeoutSeconds (limit as an upper bound it need not use)",
			"success codes other than 200 may become 200; Retry-After answers are retried by client-go",
			"the forwarded selector may be rewritten to an equivalent one; a ckube query in a forwarded selector may be kept or removed; a watch may get a timeout"},
		Families: []mc.Family{
			mc.Cases("requests", mc.Opts{Bound: "7 methods x 70 paths x 41 option sets, default cluster", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for i, p := range paths {
						for q := range queries[:base] {
							for _, m := range methods {
								if (p == "/metrics" || p == "/healthy") || !emit(Case{M: m, P: p, Q: q, B: body(m), CT: ct(m, i+q)}) {
									return
								}
							}
						}
					}
				}, exec),
			mc.Cases("addressed", mc.Opts{Bound: "7 methods x 70 paths x 14 ways of addressing a cluster x 8 option sets (thorough: 41)", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for i, p := range paths {
						for _, a := range addr[1:] {
							for qi := range queries[:base] {
								if !c.Thorough() && qi%6 != 0 && qi != 7 {
									continue
								}
								for _, m := range methods {
									if strings.HasPrefix(a, "query") && m != "GET" && m != "DELETE" {
										continue
									}
									if !emit(Case{M: m, P: p, Q: qi, A: a, B: body(m), CT: ct(m, i+qi)}) {
										return
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("watches", mc.Opts{Bound: "GET of 70 paths x 17 selectors x 9 forms of asking for a watch, default cluster; addressed in 13 ways on 7 paths", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for i, p := range paths {
						if p == "/metrics" || p == "/healthy" {
							continue
						}
						for _, q := range watches {
							if !emit(Case{M: "GET", P: p, Q: q}) {
								return
							}
							for _, a := range addr[1:] {
								if i%10 == 0 && !emit(Case{M: "GET", P: p, Q: q, A: a}) {
									return
								}
							}
						}
					}
				}, exec),
			mc.Cases("options", mc.Opts{Bound: fmt.Sprintf("each and every ordered pair of %d options on 5 paths (thorough: all), GET and (uncached) DELETE, default cluster and another", len(single)), Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					ps := []string{"/api/v1/pods", "/apis/x.io/v1/namespaces/m2/widgets", "/api/v1/namespaces/m1/pods/p1", "/api/v1/namespaces/m1/services", "/api/v1/namespaces/m1/pods/p1/log"}
					if c.Thorough() {
						ps = paths
					}
					for q := base; q < len(queries); q++ {
						for i, p := range ps {
							for j, a := range []string{"", "cluster c2", "fm c2"} {
								m := "GET"
								if (i+q+j)%3 == 0 {
									m = "DELETE"
								}
								if !emit(Case{M: m, P: p, Q: q, A: a, B: body(m)}) {
									return
								}
							}
						}
					}
				}, exec),
			mc.Cases("bodies", mc.Opts{Bound: "16 bodies (empty to 3 MiB and one byte, binary, malformed) x 4 methods x 6 paths x 6 content types, with and without announced length", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					bodies := []string{"", "{}", "x", "\x00\xff\xfe", "BIG", `{"a":1e400,"b":12345678901234567890}`, "[]", "null", `{"dryRun":["All"]}`, `{"dryRun":[]}`, `{"dryRun":["xdsm-cluster-c2"]}`, `{"kind":"DeleteOptions","apiVersion":"v1","propagationPolicy":"Background","preconditions":{"uid":"u"},"unknown":1}`, "a: b\n", " {\"a\":\n1}\n", `{"dryRun":["All","dsm-cluster-c2"]}`, strings.Repeat("z", 4097)}
					for _, b := range bodies {
						for _, m := range []string{"POST", "PUT", "PATCH", "DELETE"} {
							for _, p := range []string{"/api/v1/namespaces/m1/pods", "/api/v1/namespaces/m1/pods/p1", "/apis/x.io/v1/widgets/w", "/api/v1/namespaces/m1/services/s", "/api/v1/namespaces/m1/pods/p1/status", "/anything"} {
								for _, t := range append(cts, "", "application/yaml") {
									if m != "PATCH" && t != "" && t != "application/yaml" {
										continue
									}
									if m == "PATCH" && t == "" {
										continue
									}
									if !emit(Case{M: m, P: p, B: b, CT: t}) || !emit(Case{M: m, P: p, B: b, CT: t, Chk: true}) {
										return
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("delete-options", mc.Opts{Bound: "every combination of up to 3 of 9 delete options, with the cluster's marker first among the dry runs and without, 3 addressings, 3 paths", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					opts := []string{`"dryRun":["All"]`, `"dryRun":["All","dsm-cluster-c1"]`, `"gracePeriodSeconds":0`, `"gracePeriodSeconds":30`, `"propagationPolicy":"Foreground"`, `"orphanDependents":false`, `"preconditions":{"uid":"u"}`, `"preconditions":{"resourceVersion":"12"}`, `"kind":"DeleteOptions","apiVersion":"v1"`}
					var words [][]int
					for i := range opts {
						words = append(words, []int{i})
						for j := i + 1; j < len(opts); j++ {
							words = append(words, []int{i, j})
							for k := j + 1; k < len(opts); k++ {
								words = append(words, []int{i, j, k})
							}
						}
					}
					for _, wd := range append(words, nil) {
						var os []string
						seen := map[string]bool{}
						dup := false
						for _, i := range wd {
							k := strings.SplitN(opts[i], ":", 2)[0]
							dup = dup || seen[k]
							seen[k] = true
							os = append(os, opts[i])
						}
						if dup {
							continue
						}
						for _, a := range []string{"", "dry c2", "dry a b/c"} {
							for _, p := range []string{"/api/v1/namespaces/m1/pods/p1", "/api/v1/namespaces/m1/pods", "/apis/y.io/v1/things/t"} {
								if !emit(Case{M: "DELETE", P: p, A: a, B: "{" + strings.Join(os, ",") + "}", Chk: len(wd)%2 == 1}) {
									return
								}
							}
						}
					}
				}, exec),
			mc.Cases("answers", mc.Opts{Bound: "success bodies (empty, JSON, text, binary, 3 MiB) and every status 400..599 with and without a Status body (that names the same code, another or none), 5 methods, 3 paths", Setup: setup},
				func(c *mc.Ctx, emit func(Answer) bool) {
					for _, m := range []string{"GET", "POST", "PUT", "PATCH", "DELETE"} {
						for _, p := range []string{"/api/v1/namespaces/m1/services/s1", "/apis/x.io/v9/things", "/api/v1/namespaces/m1/pods/p1/log"} {
							for _, code := range []int{200, 201, 202} {
								for _, b := range []string{"", "{}", "plain text\nlines\n", "\x00\x01\xff", "BIG", `{"kind":"Status","status":"Success"}`, " \n", `"x"`, `{"n":12345678901234567890}`, "<html>"} {
									for _, t := range []string{"application/json", "text/plain"} {
										if !emit(Answer{M: m, P: p, Code: code, Body: b, CT: t}) {
											return
										}
									}
								}
							}
							for code := 400; code < 600; code++ {
								for _, st := range [][2]string{{"NotFound", "it is \"gone\""}, {"", "only a message"}, {"Strange", "名\n"}} {
									for _, own := range []int{0, -1, 200, 400, 404, 418, 500, 503} {
										if own != code && !emit(Answer{M: m, P: p, Code: code, CT: "application/json", St: st, Own: own}) {
											return
										}
									}
								}
								if !emit(Answer{M: m, P: p, Code: code, CT: "text/plain", Body: "no status"}) {
									return
								}
							}
						}
					}
				}, execAnswer),
		},
	})
}
