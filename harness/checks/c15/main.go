// C15: with a token configured nothing is disclosed or done without it.
package main

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
)

const marker = "zsecretvalue"

var (
	cfg  common.Config
	base store.Store
	exp  map[string]seen
	pool sync.Pool
)

// seen is everything a request brings about.
type seen struct {
	Code int
	Body string
	Up   []string
}

var methods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "get", "PROPFIND"}

var paths = []string{
	"/api/v1/pods", "/api/v1/namespaces/m1/pods", "/api/v1/namespaces/m1/pods/p1", "/apis/x.io/v1/widgets", "/apis/x.io/v1/namespaces/m1/widgets", "/apis/x.io/v1/namespaces/m1/widgets/p1", "/apis/x.io/v1/widgets/p1", "/api/v1/pods/p1", "/api/v1/namespaces", "/api/v1/namespaces/m1",
	"/api/v1/secrets", "/api/v1/namespaces/m1/secrets/s", "/apis/apps/v1/deployments", "/api/v1/namespaces/m1/pods/p1/log", "/api/v1/pods?watch=true", "/api/v1/watch/pods", "/api/v1/pods?cluster=c2", "/api/v1/pods?fieldManager=dsm-cluster-c2",
	"/custom/v1/namespaces/m1/deployments/d/services", "/custom/v1/clusters/c2/namespaces/m1/deployments/d/services", "/custom/v1/x", "/", "/version", "/api", "/apis", "/openapi/v2", "/healthz", "/readyz", "/livez", "/healthy/", "/healthy/x", "/healthyx", "/metrics/", "/metrics/x", "/metricsx", "/Healthy", "/METRICS", "/favicon.ico", "/debug/pprof/", "/healthy%2F..%2Fapi%2Fv1%2Fpods", "/login", "/static/x.js",
	"//api/v1/pods", "/healthy/../api/v1/pods", "/./api/v1/pods", "/api//v1/pods", "/metrics/../api/v1/namespaces/m1/pods/p1", "/api/v1/pods/", "/healthy//", "/api/v1/pods?token=TOK", "/api/v1/pods?access_token=TOK", "/api/v1/pods?Authorization=TOK", "/api/v1/pods?pretty=TOK", "/api/v1/TOK", "/apis/TOK/v1/pods",
	"/api/v1/pods?x=/healthy", "/api/v1/namespaces/healthy/pods", "/api/v1/namespaces/metrics/pods/metrics", "/api/v1/pods/healthy", "/api/v1/namespaces/m1/pods/metrics", "/api/v1/healthy", "/apis/metrics", "/apis/metrics.k8s.io/v1beta1/pods", "/api/metrics", "/healthy;x",
	"/api/v1/pods?watch=0", "/api/v1/pods?watch=false", "/api/v1/pods?watch=1", "/api/v1/pods?limit=1", "/api/v1/pods?timeout=1s", "/api/v1/pods?timeoutSeconds=5", "/api/v1/pods?labelSelector=a%3Db", "/api/v1/pods?fieldSelector=metadata.name%3Dp1", "/api/v1/pods?page=1", "/api/v1/pods?dryRun=All", "/api/v1/pods?resourceVersion=0", "/api/v1/namespaces/m1/pods/p1?watch=0", "/api/v1/namespaces/m1/pods/p1?dryRun=All", "/custom/v1/namespaces/m1/deployments/d/services?watch=0", "/apis/x.io/v1/widgets?watch=false", "/api/v1/pods?", "/api/v1/pods?watch",
}

var open = []string{"/healthy", "/metrics", "/healthy?x=1", "/metrics?name[]=up", "/healthy?x=1&path=/api/v1/pods"}

// Headers that do not authorize, TOK is replaced by the token.
var without = [][]string{
	nil, {"Authorization", ""}, {"Authorization", "Bearer "}, {"Authorization", "Bearer null"}, {"Authorization", "CUT"}, {"Authorization", "Bearer CUT"}, {"Authorization", "HEADLESS"}, {"Authorization", "Bearer REV"}, {"Authorization", "Bearer CASE"}, {"Authorization", "Basic BASE64"}, {"Authorization", "Bearer SPACED"}, {"Authorization", "*"}, {"Authorization", ".*"}, {"Authorization", "%s"},
	{"Proxy-Authorization", "Bearer TOK"}, {"X-Authorization", "Bearer TOK"}, {"X-Auth-Token", "TOK"}, {"Token", "TOK"}, {"Cookie", "token=TOK; Authorization=TOK"}, {"X-Forwarded-Authorization", "TOK"}, {"User-Agent", "TOK"}, {"User-Agent", "kube-probe/1.27"}, {"User-Agent", "Prometheus/2.0"}, {"Referer", "TOK"}, {"Accept", "TOK"}, {"Content-Type", "TOK"}, {"WWW-Authenticate", "TOK"},
	{"Upgrade", "websocket", "Connection", "Upgrade"}, {"Upgrade", "SPDY/3.1", "Connection", "Upgrade"}, {"Sec-WebSocket-Protocol", "base64url.bearer.authorization.k8s.io.TOK"}, {"X-HTTP-Method-Override", "GET"}, {"X-Forwarded-For", "127.0.0.1"}, {"X-Real-Ip", "127.0.0.1"}, {"X-Original-URL", "/healthy"}, {"X-Rewrite-URL", "/metrics"}, {"Impersonate-User", "admin"}, {"X-Remote-User", "admin"}, {"Origin", "null", "Access-Control-Request-Method", "GET"}, {"Accept", "application/json;as=Table"}, {"Content-Type", "application/merge-patch+json"}, {"Host", "localhost"}, {"Expect", "100-continue"},
}

var with = []string{"Bearer TOK", "TOK", "Basic TOK", "bearer  TOK"}

func sub(s, tok string) string {
	cut, headless := "", ""
	if tok != "" {
		cut, headless = tok[:len(tok)-1], tok[1:]
	}
	rev := []byte(tok)
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	cas := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' {
			return r - 32
		}
		if r >= 'A' && r <= 'Z' {
			return r + 32
		}
		return r
	}, tok)
	return strings.NewReplacer("TOK", tok, "CUT", cut, "HEADLESS", headless, "REV", string(rev), "CASE", cas, "BASE64", "dXNlcjpwYXNz", "SPACED", strings.Join(strings.Split(tok, ""), " ")).Replace(s)
}

func newWorld() *world.World {
	w := world.New(cfg, "c1", "c2")
	w.Store = base
	w.Serve()
	return w
}

func setTok(t string) {
	c := cfg
	c.Token = t
	common.InitConfig(&c)
}

func request(w *world.World, m, p string, hdr []string, tok string) seen {
	body := ""
	if m != "GET" && m != "HEAD" {
		body = `{"metadata":{"name":"p1"}}`
	}
	if pp, _, _ := strings.Cut(p, "?"); strings.Contains(pp, "TOK") {
		tok := strings.NewReplacer("/", "", ".", "").Replace(tok)
		p = strings.ReplaceAll(p, "TOK", url.PathEscape(tok))
	}
	p = strings.ReplaceAll(p, "TOK", url.QueryEscape(tok))
	h := make([]string, len(hdr))
	for i := range hdr {
		h[i] = hdr[i]
		if i%2 == 1 {
			h[i] = sub(hdr[i], tok)
		}
	}
	r := world.Req(m, p, nil, body, h...)
	r.RemoteAddr = "127.0.0.1:4711"
	res := w.Do(r)
	s := seen{Code: res.Code, Body: string(res.Body)}
	for _, u := range w.Taken() {
		u.Header = http.Header{"Content-Type": u.Header["Content-Type"]}
		s.Up = append(s.Up, u.String())
	}
	sort.Strings(s.Up)
	return s
}

func setup(tok string) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		cfg = gen.Config("c1", "k")
		cfg.Proxies = append(cfg.Proxies, world.Proxy("", "v1", "services", "Service", gen.IndexKeys()), world.Proxy("", "v1", "namespaces", "Namespace", gen.IndexKeys()))
		w := world.New(cfg, "c1", "c2")
		for _, cl := range []string{"c1", "c2"} {
			gen.Fill(w.Store, []gen.Spec{{C: cl, N: "m1", O: "p1", L: map[string]string{"l": marker}}, {C: cl, O: "p1", L: map[string]string{"l": marker}}}, true, true)
			_ = w.Store.OnResourceAdded(world.GVR("", "v1", "namespaces"), cl, gen.Spec{O: "m1", L: map[string]string{"l": marker}}.Custom())
			_ = w.Store.OnResourceAdded(world.GVR("", "v1", "services"), cl, gen.Spec{N: "m1", O: "p1", L: map[string]string{"l": marker}}.Custom())
		}
		base = w.Store
		pool = sync.Pool{New: func() interface{} {
			w := &world.World{Ups: map[string]*world.Up{}, Store: base}
			w.Clients = nil
			for _, cl := range []string{"c1", "c2"} {
				w.Ups[cl] = &world.Up{Cluster: cl}
			}
			n := world.Clients(w.Ups)
			w.Clients = n
			w.Serve()
			return w
		}}
		setTok("")
		exp = map[string]seen{}
		ew := pool.Get().(*world.World)
		for _, m := range methods {
			for _, p := range append(append([]string{}, paths...), open...) {
				// the table is without any token, so it does not depend on the check that is tested
				exp[m+" "+p] = request(ew, m, p, nil, tok)
			}
		}
		pool.Put(ew)
		setTok(tok)
	}
}

// Case is a request with its headers.
type Case struct {
	Tok, M, P string
	H         []string
	Auth      bool
}

func clean(p string) bool {
	pp, _, _ := strings.Cut(p, "?")
	return !strings.Contains(pp, "//") && !strings.Contains(pp, "/.") && !strings.Contains(pp, "%2F")
}

func refused(x *mc.X, m, p string, s seen) error {
	x.Outcome(fmt.Sprint("refused ", s.Code))
	if len(s.Up) > 0 {
		return fmt.Errorf("%s %s without the token reached an API server: %v", m, p, s.Up)
	}
	if strings.Contains(s.Body, marker) {
		return fmt.Errorf("%s %s without the token discloses %.300s", m, p, s.Body)
	}
	if s.Code == 401 {
		return nil
	}
	if s.Code >= 300 && s.Code < 400 && !clean(p) {
		return nil // redirected to the clean path
	}
	return fmt.Errorf("%s %s without the token: status %d %.300s", m, p, s.Code, s.Body)
}

func exec(x *mc.X, c Case) error {
	w := pool.Get().(*world.World)
	defer pool.Put(w)
	w.Taken()
	s := request(w, c.M, c.P, c.H, c.Tok)
	x.Step(1)
	x.State(mc.J(c))
	want := exp[c.M+" "+c.P]
	for _, o := range open {
		if c.P != o {
			continue
		}
		if c.M != "GET" {
			break
		}
		if s.Code != 200 || len(s.Up) > 0 || strings.HasPrefix(c.P, "/healthy") && s.Body != "1" || strings.HasPrefix(c.P, "/metrics") && !strings.Contains(s.Body, "# HELP ") && !strings.Contains(c.P, "?") {
			return fmt.Errorf("%s %s must work without a token: %d %.200s %v", c.M, c.P, s.Code, s.Body, s.Up)
		}
		if strings.Contains(s.Body, marker) {
			return fmt.Errorf("%s discloses cached objects", c.P)
		}
		x.Outcome("open")
		return nil
	}
	if !c.Auth && c.Tok != "" {
		return refused(x, c.M, c.P, s)
	}
	if s.Code != want.Code || s.Body != want.Body || !reflect.DeepEqual(s.Up, want.Up) {
		return fmt.Errorf("%s %s %q is answered\n  %d %.300s %v\nwant as without a configured token\n  %d %.300s %v", c.M, c.P, c.H, s.Code, s.Body, s.Up, want.Code, want.Body, want.Up)
	}
	x.Outcome(fmt.Sprint("served ", s.Code))
	return nil
}

var tokens = []string{"s3cr3tT0ken", "t", "a b", "Bearer x", "eyJhbGciOi.J9-_=+/", strings.Repeat("k", 4096), "$(x).*[a]", "null"}

func fam(i int, tok string) mc.Family {
	return mc.Cases(fmt.Sprintf("token%d", i), mc.Opts{Bound: fmt.Sprintf("%d methods x %d paths x %d header sets without and %d with the token %.20q", len(methods), len(paths)+len(open), len(without), len(with), tok), Setup: setup(tok)},
		func(c *mc.Ctx, emit func(Case) bool) {
			for _, p := range append(append([]string{}, paths...), open...) {
				for _, m := range methods {
					for _, h := range without {
						carries := false
						for j := 0; j+1 < len(h); j += 2 {
							if h[j] == "Authorization" && strings.Contains(sub(h[j+1], tok), tok) {
								carries = true
							}
						}
						if carries || i > 0 && !c.Thorough() && m != "GET" && m != "POST" {
							continue
						}
						if !emit(Case{tok, m, p, h, false}) {
							return
						}
					}
					for _, h := range with {
						if !emit(Case{tok, m, p, []string{"Authorization", h}, true}) {
							return
						}
					}
				}
			}
		}, exec)
}

// near: tokens with each printable character at each place, and headers that carry almost the token.
func near() mc.Family {
	return mc.Cases("near", mc.Opts{Bound: "every printable character alone, first, last and inside of a token; headers with every proper prefix and suffix, with each character missing, replaced, doubled, in the other case, percent- or base64-encoded", Setup: setup(""), Workers: 1},
		func(c *mc.Ctx, emit func(Case) bool) {
			for ch := '!'; ch <= '~'; ch++ {
				x := string(ch)
				for _, tok := range []string{x, x + "kY3", "kY3" + x, "k" + x + "Y3", "kY3" + x + x, x + "kY3" + x} {
					seen := map[string]bool{}
					var hs []string
					add := func(h string) {
						if !seen[h] && !strings.Contains("Bearer "+h, tok) {
							seen[h] = true
							hs = append(hs, h)
						}
					}
					for i := range tok {
						add(tok[:i])
						add(tok[i+1:])
						add(tok[:i] + tok[i+1:])
						add(tok[:i] + "_" + tok[i+1:])
						add(tok[:i] + tok[i:i+1] + tok[i:])
						add(tok[:i] + fmt.Sprintf("%%%02X", tok[i]) + tok[i+1:])
						add(tok[:i] + " " + tok[i:])
						add(tok[:i] + strings.ToUpper(tok[i:i+1]) + tok[i+1:])
						add(tok[:i] + strings.ToLower(tok[i:i+1]) + tok[i+1:])
					}
					add(base64.StdEncoding.EncodeToString([]byte(tok)))
					add(base64.StdEncoding.EncodeToString([]byte("user:" + tok)))
					add(url.QueryEscape(tok))
					add(strings.Trim(tok, x))
					add("")
					for _, h := range hs {
						if !emit(Case{tok, "GET", "/api/v1/pods", []string{"Authorization", "Bearer " + h}, false}) || !emit(Case{tok, "POST", "/api/v1/namespaces/m1/pods", []string{"Authorization", h}, false}) {
							return
						}
					}
					for _, h := range with {
						if !emit(Case{tok, "GET", "/api/v1/pods", []string{"Authorization", h}, true}) || !emit(Case{tok, "PATCH", "/api/v1/namespaces/m1/pods/p1", []string{"Authorization", h}, true}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, c Case) error {
			setTok(c.Tok)
			return exec(x, c)
		})
}

// Word is a sequence of token changes and requests.
type Word []string

func execWord(x *mc.X, word Word) error {
	w := pool.Get().(*world.World)
	defer pool.Put(w)
	w.Taken()
	cur := ""
	setTok("")
	for i, op := range word {
		k, v, _ := strings.Cut(op, " ")
		if k == "set" {
			cur = v
			setTok(v)
			continue
		}
		m, p, _ := strings.Cut(map[string]string{"list": "GET /api/v1/pods", "get": "GET /api/v1/namespaces/m1/pods/p1", "post": "POST /api/v1/namespaces/m1/pods", "svc": "GET /custom/v1/namespaces/m1/deployments/d/services"}[k], " ")
		var h []string
		if v != "" {
			h = []string{"Authorization", "Bearer " + v}
		}
		s := request(w, m, p, h, "")
		x.Step(1)
		x.State(fmt.Sprint(cur, op))
		if cur != "" && !strings.Contains("Bearer "+v, cur) {
			if err := refused(x, m, p, s); err != nil {
				return fmt.Errorf("step %d of %v (token %q): %v", i, word, cur, err)
			}
			continue
		}
		want := exp[m+" "+p]
		if s.Code != want.Code || s.Body != want.Body || !reflect.DeepEqual(s.Up, want.Up) {
			return fmt.Errorf("step %d of %v (token %q): %d %.200s %v, want %d %.200s %v", i, word, cur, s.Code, s.Body, s.Up, want.Code, want.Body, want.Up)
		}
		x.Outcome("served " + k)
	}
	return nil
}

func main() {
	var fams []mc.Family
	for i, t := range tokens {
		fams = append(fams, fam(i, t))
	}
	fams = append(fams, near(), mc.Cases("none", mc.Opts{Bound: "no token configured: every request with every header set is processed", Setup: setup("")},
		func(c *mc.Ctx, emit func(Case) bool) {
			for _, p := range paths {
				for _, m := range methods {
					for _, h := range without {
						if len(h) > 0 && h[0] != "Authorization" && h[0] != "Cookie" {
							continue // may change the answer for other reasons
						}
						if !emit(Case{"", m, p, h, true}) {
							return
						}
					}
				}
			}
		}, exec))
	fams = append(fams, mc.Cases("changes", mc.Opts{Bound: "all sequences of up to 4 (thorough 5) of 3 token changes and 12 requests", Setup: setup(""), Workers: 1},
		func(c *mc.Ctx, emit func(Word) bool) {
			ops := []string{"set ", "set A1", "set B2"}
			for _, k := range []string{"list", "get", "post", "svc"} {
				for _, v := range []string{"", "A1", "B2"} {
					ops = append(ops, k+" "+v)
				}
			}
			for n := 1; n <= mc.Pick(c, 3, 4); n++ {
				if !mc.Words(len(ops), n, func(ix []int) bool {
					w := make(Word, n)
					for i, o := range ix {
						w[i] = ops[o]
					}
					return emit(w)
				}) {
					return
				}
			}
		}, execWord))
	mc.Main(mc.Def{ID: "C15",
		Oracle:   "401, no API-server request and no cached content without the token; with it, exactly what the same server does when no token is configured",
		Assume:   []string{"paths that are not clean may be redirected to their clean form before the token is checked", "an Authorization header that contains the token carries it, whatever the scheme", "for /healthy and /metrics only GET is the health and metrics endpoint; other methods on them are not decided here"},
		Families: fams})
}
