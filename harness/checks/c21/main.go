// C21: the kubectl plugin and the CLI pass the user's command through intact.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"sync/atomic"
	"time"

	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/selection"

	"ckubemc/mc"
	"ckubemc/ref"
)

const queryKey = "ckube.daocloud.io/query"

// ---- the command line as kubectl reads it ----

// options that take a value, beside -l and --selector
var valued = map[string]bool{"-n": true, "--namespace": true, "-o": true, "--output": true, "-f": true, "--filename": true, "-L": true, "--label-columns": true, "--image": true, "--sort-by": true, "--field-selector": true, "--context": true, "--from-literal": true, "--dry-run": false, "--raw": true, "--chunk-size": true}

type parsed struct {
	sub       string
	others    []string // everything but the options below, in order
	clusters  *string
	selector  *string
	manager   *string
	rest      []string // behind --
	nClusters int
}

func parse(argv []string) parsed {
	var p parsed
	str := func(s string) *string { return &s }
	for i := 0; i < len(argv); i++ {
		a := argv[i]
		next := func() *string {
			if i+1 < len(argv) {
				i++
				return &argv[i]
			}
			return nil
		}
		switch {
		case a == "--":
			p.rest = append([]string{}, argv[i:]...)
			return p
		case a == "--clusters":
			p.clusters = next()
			p.nClusters++
		case strings.HasPrefix(a, "--clusters="):
			p.clusters = str(a[len("--clusters="):])
			p.nClusters++
		case a == "--selector":
			p.selector = next()
		case strings.HasPrefix(a, "--selector="):
			p.selector = str(a[len("--selector="):])
		case a == "--field-manager":
			p.manager = next()
		case strings.HasPrefix(a, "--field-manager="):
			p.manager = str(a[len("--field-manager="):])
		case strings.HasPrefix(a, "-") && !strings.HasPrefix(a, "--") && len(a) > 1:
			// options of one letter, A, R and w without values
			j := 1
			for j < len(a) && strings.IndexByte("ARw", a[j]) >= 0 {
				j++
			}
			if j < len(a) && a[j] == 'l' {
				if j > 1 {
					p.others = append(p.others, a[:j])
				}
				v := a[j+1:]
				switch {
				case v == "":
					p.selector = next()
				case len(v) > 1 && v[0] == '=':
					p.selector = str(v[1:])
				default:
					p.selector = str(v)
				}
				continue
			}
			p.others = append(p.others, a)
			if valued[a] {
				if v := next(); v != nil {
					p.others = append(p.others, *v)
				}
			}
		default:
			if p.sub == "" && !strings.HasPrefix(a, "-") {
				p.sub = a
			}
			p.others = append(p.others, a)
			if valued[a] {
				if v := next(); v != nil {
					p.others = append(p.others, *v)
				}
			}
		}
	}
	return p
}

// ---- running the binaries ----

var (
	dir  string
	runs int64
)

type result struct {
	argv           []string
	ran            bool
	code           int
	stdout, stderr string
}

func plugin(args []string, status, stdin string, noKubectl bool) (result, error) {
	out := filepath.Join(dir, fmt.Sprintf("argv%d", atomic.AddInt64(&runs, 1)))
	defer os.Remove(out)
	c := exec.Command(filepath.Join(os.Getenv("CKUBEMC_TMP"), "ckube-plugin"), args...)
	path := filepath.Join(dir, "bin")
	if noKubectl {
		path = filepath.Join(dir, "none")
	}
	c.Env = []string{"PATH=" + path, "STUB_OUT=" + out, "STUB_STATUS=" + status}
	c.Stdin = strings.NewReader(stdin)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	r := result{stdout: so.String(), stderr: se.String()}
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			return r, fmt.Errorf("HARNESS: %v", err)
		}
		r.code = x.ExitCode()
		if r.code < 0 {
			r.code = 1000
		}
	}
	if b, err := os.ReadFile(out); err == nil {
		r.ran = true
		r.argv = strings.Split(string(b), "\x00")
		if strings.Count(string(b), "\x01RUN\x01") != 1 {
			return r, fmt.Errorf("kubectl ran %d times: %q", strings.Count(string(b), "\x01RUN\x01"), b)
		}
		r.argv = r.argv[1 : len(r.argv)-1]
	}
	return r, nil
}

const stub = `#!/bin/sh
{ printf '\001RUN\001\000'; for a in "$@"; do printf '%s\000' "$a"; done; } >> "$STUB_OUT"
while IFS= read -r l; do echo "got $l"; done
echo problem >&2
case "$STUB_STATUS" in
kill) kill -9 $$ ;;
esac
exit $STUB_STATUS
`

// query takes the query of ckube out of a selector.
func query(sel string) (map[string]interface{}, labels.Requirements, error) {
	s, err := labels.Parse(sel)
	if err != nil {
		return nil, nil, err
	}
	reqs, _ := s.Requirements()
	var rest labels.Requirements
	var q map[string]interface{}
	for _, r := range reqs {
		if r.Key() != queryKey {
			rest = append(rest, r)
			continue
		}
		if q != nil || r.Operator() != selection.NotIn {
			return nil, nil, fmt.Errorf("query %v", r)
		}
		vs := r.Values().List()
		text := ""
		if len(vs) == 1 {
			text = vs[0]
		} else {
			for i, v := range vs {
				if !strings.HasPrefix(v, fmt.Sprintf("%04d.", i*56)) && !strings.HasPrefix(v, fmt.Sprintf("%04d.", i)) {
					return nil, nil, fmt.Errorf("part %d is %q", i, v)
				}
				text += v[5:]
			}
		}
		b, err := base64.RawStdEncoding.DecodeString(text)
		if err != nil {
			return nil, nil, err
		}
		q = map[string]interface{}{}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if err := d.Decode(&q); err != nil {
			return nil, nil, err
		}
	}
	return q, rest, nil
}

var labelValue = regexp.MustCompile(`^(([A-Za-z0-9][-A-Za-z0-9_.]*)?[A-Za-z0-9])?$`)

// label sets that selectors are compared on
func labelSets() []labels.Set {
	var r []labels.Set
	for _, a := range []string{"-", "", "x", "y", "a"} {
		for _, b := range []string{"-", "", "x", "get"} {
			for _, c := range []string{"-", "v"} {
				s := labels.Set{}
				if a != "-" {
					s["app"] = a
				}
				if b != "-" {
					s["tier"] = b
				}
				if c != "-" {
					s["x.io/c"] = c
				}
				r = append(r, s)
			}
		}
	}
	return append(r, labels.Set{"get": "1"}, labels.Set{"create": "", "app": "x"})
}

var sets = labelSets()

func sameRequirements(user string, rest labels.Requirements) error {
	u, err := labels.Parse(user)
	if err != nil {
		return err
	}
	r := labels.NewSelector().Add(rest...)
	for _, s := range sets {
		if u.Matches(s) != r.Matches(s) {
			return fmt.Errorf("the user's selector %q became %q, they differ for %v", user, r, s)
		}
	}
	return nil
}

// restricts checks that a search keeps exactly what the user's search keeps of some clusters.
func restricts(search, user string, clusters []string, all bool) error {
	for _, c := range append([]string{"elsewhere", "c", "", "c11"}, clusters...) {
		for _, name := range []string{"a", "b", "ab", ""} {
			for _, ns := range []string{"n", "x y", "a;b"} {
				m := map[string]string{"cluster": c, "name": name, "namespace": ns, "is_deleted": "false"}
				want, err := ref.Match(m, user)
				if err != nil {
					want = false
				}
				in := all
				for _, k := range clusters {
					in = in || k == c
				}
				got, err2 := ref.Match(m, search)
				if err2 != nil {
					if err == nil {
						return fmt.Errorf("the search %q is refused: %v", search, err2)
					}
					got = false
				}
				if got != (want && in) {
					return fmt.Errorf("the search %q of clusters %q became %q: %v is selected: %v", user, clusters, search, m, got)
				}
			}
		}
	}
	return nil
}

// Case is a command line of the plugin.
type Case struct {
	Args   []string
	Status string `json:",omitempty"`
	Stdin  string `json:",omitempty"`
	Gone   bool   `json:",omitempty"` // there is no kubectl
}

func run(x *mc.X, c Case) error {
	x.Step(1)
	p := parse(c.Args)
	for _, a := range c.Args {
		if a == p.sub {
			break
		}
		if a == "get" || a == "create" {
			return nil // the value of an option in front of the subcommand
		}
	}
	st := c.Status
	if st == "" {
		st = "0"
	}
	r, err := plugin(c.Args, st, c.Stdin, c.Gone)
	if err != nil {
		return err
	}
	x.State(p.sub + fmt.Sprint(p.clusters != nil, p.selector != nil, len(p.others), r.code, r.ran))
	refused := func(why string) error {
		x.Outcome("refused: " + why)
		if r.ran || r.code == 0 {
			return fmt.Errorf("%s, but kubectl ran: %v (%q), exit status %d", why, r.ran, r.argv, r.code)
		}
		return nil
	}
	if p.sub != "get" && p.sub != "create" {
		return refused("the subcommand is not supported")
	}
	var cs []string
	if p.clusters != nil && *p.clusters != "" {
		cs = strings.Split(*p.clusters, ",")
		for _, cl := range cs {
			if cl == "" {
				return refused("a cluster has no name")
			}
		}
		if p.sub == "create" && len(cs) > 1 {
			return refused("several clusters for one object")
		}
		if p.sub == "get" && p.selector != nil {
			if _, err := labels.Parse(*p.selector); err != nil {
				return refused("not a selector")
			}
			if strings.ContainsAny(*p.selector, "<>") && !r.ran {
				return refused("comparisons can not be combined with a query")
			}
		}
	}
	if p.sub == "get" && r.code != 0 && !r.ran {
		for _, cl := range cs {
			if !labelValue.MatchString(cl) || len(cl) > 63 {
				return refused("a cluster that can not be selected")
			}
		}
	}
	if c.Gone {
		return refused("there is no kubectl")
	}
	if !r.ran {
		return fmt.Errorf("kubectl did not run, exit status %d: %s", r.code, r.stderr)
	}
	g := parse(r.argv)
	if g.nClusters != 0 {
		return fmt.Errorf("kubectl got the option for clusters: %q", r.argv)
	}
	if !reflect.DeepEqual(g.others, p.others) || !reflect.DeepEqual(g.rest, p.rest) {
		return fmt.Errorf("kubectl got %q", r.argv)
	}
	same := func(a, b *string) bool { return a == nil && b == nil || a != nil && b != nil && *a == *b }
	switch {
	case cs == nil:
		if !same(g.selector, p.selector) || !same(g.manager, p.manager) {
			return fmt.Errorf("kubectl got %q", r.argv)
		}
	case p.sub == "get":
		if !same(g.manager, p.manager) || g.selector == nil {
			return fmt.Errorf("kubectl got %q", r.argv)
		}
		q, rest, err := query(*g.selector)
		if err != nil {
			return fmt.Errorf("kubectl got %q: %v", r.argv, err)
		}
		user := ""
		if p.selector != nil {
			user = *p.selector
		}
		if err := sameRequirements(user, rest); err != nil {
			return fmt.Errorf("kubectl got %q: %v", r.argv, err)
		}
		for k := range q {
			if k != "search" {
				return fmt.Errorf("kubectl got %q: %s of the query is %v", r.argv, k, q[k])
			}
		}
		s, _ := q["search"].(string)
		if err := restricts(s, "", cs, false); err != nil {
			return fmt.Errorf("kubectl got %q: %v", r.argv, err)
		}
	case p.sub == "create":
		if !same(g.selector, p.selector) || g.manager == nil || *g.manager != "dsm-cluster-"+cs[0] {
			return fmt.Errorf("kubectl got %q", r.argv)
		}
	}
	// the process around it
	code := map[string]int{"0": 0, "1": 1, "2": 2, "3": 3, "42": 42, "127": 127, "255": 255, "kill": -1}[st]
	if code == -1 && r.code == 0 || code != -1 && r.code != code {
		return fmt.Errorf("kubectl ended with %s, the plugin with %d", st, r.code)
	}
	want := ""
	for _, l := range strings.SplitAfter(c.Stdin, "\n") {
		if strings.HasSuffix(l, "\n") {
			want += "got " + l
		}
	}
	if r.stdout != want || !strings.Contains(r.stderr, "problem\n") {
		return fmt.Errorf("output %q, errors %q", r.stdout, r.stderr)
	}
	x.Outcome(fmt.Sprintf("%s, %d clusters, selector %v, exit %d", p.sub, len(cs), p.selector != nil, r.code))
	x.Sample(c.Args)
	return nil
}

// CLI is a command line of ckubecli.
type CLI struct {
	Page, Size           string
	Sort, Search, Clster string
	Form                 int
}

func cli(x *mc.X, c CLI) error {
	x.Step(1)
	var args []string
	add := func(n, v string) {
		if v == "" {
			return
		}
		switch c.Form {
		case 0:
			args = append(args, "-"+n, v)
		case 1:
			args = append(args, "--"+n+"="+v)
		default:
			args = append([]string{"-" + n + "=" + v}, args...)
		}
	}
	add("p", c.Page)
	add("s", c.Size)
	add("sort", c.Sort)
	add("search", c.Search)
	add("c", c.Clster)
	cmd := exec.Command(filepath.Join(os.Getenv("CKUBEMC_TMP"), "ckubecli"), args...)
	cmd.Env = []string{}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	x.State(mc.J(c))
	var cs []string
	if c.Clster != "" {
		cs = strings.Split(c.Clster, ",")
	}
	for _, k := range cs {
		if k == "" {
			if err == nil {
				return fmt.Errorf("%q: a cluster without a name, the answer is %q", args, so.String())
			}
			x.Outcome("refused")
			return nil
		}
	}
	for _, k := range cs {
		if (!labelValue.MatchString(k) || len(k) > 63) && err != nil {
			x.Outcome("refused")
			return nil
		}
	}
	if err != nil {
		return fmt.Errorf("%q: %v: %s", args, err, se.String())
	}
	if c == (CLI{Form: c.Form}) {
		if so.String() != "" {
			return fmt.Errorf("%q: nothing was asked for, the answer is %q", args, so.String())
		}
		return nil
	}
	q, rest, err := query(so.String())
	if err != nil {
		return fmt.Errorf("%q: %q: %v", args, so.String(), err)
	}
	if len(rest) != 0 || q == nil && (c.Page != "" && c.Page != "0" || c.Size != "" && c.Size != "0") {
		return fmt.Errorf("%q: %q", args, so.String())
	}
	num := func(k, want string) error {
		got := "0"
		if v, ok := q[k]; ok {
			got = fmt.Sprint(v)
		}
		if want == "" {
			want = "0"
		}
		if got != want {
			return fmt.Errorf("%q: %s is %s", args, k, got)
		}
		return nil
	}
	if err := num("page", c.Page); err != nil {
		return err
	}
	if err := num("page_size", c.Size); err != nil {
		return err
	}
	if s, _ := q["sort"].(string); s != c.Sort {
		return fmt.Errorf("%q: sort is %q", args, s)
	}
	if _, ok := q["total"]; ok {
		return fmt.Errorf("%q: a total of %v", args, q["total"])
	}
	s, _ := q["search"].(string)
	if cs == nil {
		if s != c.Search {
			return fmt.Errorf("%q: search is %q", args, s)
		}
	} else if err := restricts(s, c.Search, cs, false); err != nil {
		return fmt.Errorf("%q: %v", args, err)
	}
	x.Outcome(fmt.Sprintf("%d clusters, search %v", len(cs), c.Search != ""))
	x.Sample(args)
	return nil
}

func main() {
	d, err := os.MkdirTemp(os.Getenv("CKUBEMC_TMP"), "c21")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	dir = d
	_ = os.Mkdir(filepath.Join(dir, "bin"), 0755)
	_ = os.Mkdir(filepath.Join(dir, "none"), 0755)
	if err := os.WriteFile(filepath.Join(dir, "bin", "kubectl"), []byte(stub), 0755); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	opt := func(b string) mc.Opts { return mc.Opts{Bound: b, Workers: 12, Limit: 4 * time.Minute} }

	clusterForms := func(v string) [][]string { return [][]string{{"--clusters", v}, {"--clusters=" + v}} }
	selectorForms := func(v string) [][]string {
		return [][]string{{"-l", v}, {"-l=" + v}, {"-l" + v}, {"--selector", v}, {"--selector=" + v}, {"-Al", v}, {"-wAl=" + v}, {"-A", "-l", v}}
	}
	insert := func(a []string, i int, b []string) []string {
		return append(append(append([]string{}, a[:i]...), b...), a[i:]...)
	}
	// positions an option can stand at: not between an option and its value, not behind --
	positions := func(a []string) []int {
		var r []int
		for i := 0; i <= len(a); i++ {
			if i > 0 && (valued[a[i-1]] || a[i-1] == "-l" || a[i-1] == "--clusters" || a[i-1] == "--selector" || strings.HasSuffix(a[i-1], "l") && strings.HasPrefix(a[i-1], "-") && !strings.HasPrefix(a[i-1], "--") && !strings.Contains(a[i-1], "=") && strings.Trim(a[i-1], "-AwRl") == "") {
				continue
			}
			r = append(r, i)
			if i < len(a) && a[i] == "--" {
				break
			}
		}
		return r
	}
	bases := [][]string{
		{"get", "pods"},
		{"get", "pods", "-n", "ns", "-o", "json"},
		{"get", "pods", "-olong"}, {"get", "pods", "-owl"},
		{"get", "create", "get"},
		{"-n", "ns", "get", "deploy,svc", "-w"},
		{"get", "--", "pods", "-l", "x=y", "--clusters", "q"},
		{"create", "-f", "-"},
		{"create", "deployment", "get", "--image=i"},
		{"create", "job", "j", "--image", "i", "--", "cmd", "-lx", "--clusters=z", "--", "get"},
		{"create", "create", "-n", "n"},
		{"--context=k", "create", "ns", "n"},
	}
	thoroughBases := [][]string{
		{"get", "-Lapp", "pods", "--label-columns=app", "-L", "app"},
		{"get", "--raw", "/api/v1/pods"},
		{"get", "pods", "", "a b", "-ojsonpath={.items[*].metadata.name}", "--sort-by", ".metadata.name"},
		{"get", "all", "--chunk-size=5", "--selectors", "--clustersx=1", "-"},
		{"create", "configmap", "c", "--from-literal", "k=-l", "--from-literal=a=--clusters"},
		{"get", "pods", "名", "\xff\xfe", "'\"$(x)", "*", "-nl", "-nlapp"},
	}
	all := append(append([][]string{}, bases...), thoroughBases...)
	mc.Main(mc.Def{ID: "C21",
		Oracle: "a reading of command lines as kubectl reads them, and an independent decoder of queries",
		Assume: []string{"the subcommand comes before other arguments that equal one", "the user sets no field manager and no query of ckube in the selector", "a cluster condition in the CLI's search is replaced by the requested clusters"},
		Quick:  90 * time.Second, Long: 780 * time.Second,
		Families: []mc.Family{
			mc.Cases("options", opt("16 command lines with the cluster option in 2 forms with 5 values at every position and the selector in 8 forms with 4 values at every position (quick: 2 by 3 values in pairs)"),
				func(c *mc.Ctx, emit func(Case) bool) {
					cvs := []string{"c1", "c1,c2"}
					svs := []string{"app=x", "app in (x,y),!tier", "get"}
					if c.Thorough() {
						cvs = []string{"c1", "c1,c2", "", "c1,", "a@b:c/d"}
						svs = append(svs, "x.io/c notin (v)")
					}
					for _, b := range all {
						if !emit(Case{Args: b}) {
							return
						}
						var withC [][]string
						for _, cv := range cvs {
							for _, f := range clusterForms(cv) {
								for _, i := range positions(b) {
									withC = append(withC, insert(b, i, f))
								}
							}
						}
						for _, a := range withC {
							if !emit(Case{Args: a}) {
								return
							}
						}
						for fi := 0; fi < 8; fi++ {
							for si, sv := range svs {
								f := selectorForms(sv)[fi]
								for _, i := range positions(b) {
									if !emit(Case{Args: insert(b, i, f)}) {
										return
									}
								}
								for ci, a := range withC {
									for pi, i := range positions(a) {
										if !c.Thorough() && (fi+si+ci+pi)%5 != 0 {
											continue
										}
										if !emit(Case{Args: insert(a, i, f)}) {
											return
										}
									}
								}
							}
						}
					}
				}, run),
			mc.Cases("repeated", opt("words of up to 4 (thorough 5) of 8 arguments behind get and create"),
				func(c *mc.Ctx, emit func(Case) bool) {
					toks := [][]string{{"--clusters", "c1"}, {"--clusters=c2,c3"}, {"-l", "app=x"}, {"--selector=tier"}, {"-lapp!=x"}, {"pods"}, {"-n", "get"}, {"--"}}
					hi := 4
					if c.Thorough() {
						hi = 5
					}
					for n := 0; n <= hi; n++ {
						if !mc.Words(len(toks), n, func(w []int) bool {
							for _, s := range []string{"get", "create"} {
								a := []string{s}
								for _, i := range w {
									a = append(a, toks[i]...)
								}
								if !emit(Case{Args: a}) {
									return false
								}
							}
							return true
						}) {
							return
						}
					}
				}, run),
			mc.Cases("values", opt("a list of 38 cluster lists and one of 35 selectors, singly and (thorough) in pairs, with get and create"),
				func(c *mc.Ctx, emit func(Case) bool) {
					cls := []string{"", ",", "c1,", ",c1", "c1,,c2", "c1,c1", "a b", "a;b", "a=b", "名字", "kubernetes-admin@kubernetes", "arn:aws:eks:eu:1:cluster/x", "-", "--clusters", "get", "-l", "x'y\"z", "%s%d", "!x", "a(b)", "*", "\\", "c1, c2", " c1", "c1 ", "\t", "in", "notin", "dsm-cluster-x", "0", "null", strings.Repeat("long", 40), "c1,c2,c3,c4,c5,c6,c7,c8,c9,c10", "C1", "<none>", "e\u0301", "?", "c1\n"}
					sels := []string{"", " ", "app=x", "app==x", "app!=x", "app", "!app", "app in (x)", "app in (x,y)", "app notin (x, y)", "app=x,tier=x", "app=x,app!=y", "app=x,app=x", "app=x,app=y", "app in (x),app in (x,y)", "x.io/c=v", "x.io/c", "app=", "app in ()", "app in (,x)", "app,tier,!x.io/c", "=x", "a b", "app=x,", ",", "app>1", "app<1", "app in (x", "app=x y", "%zz", "app=a%b", "tier notin (get)", "!get", "create", "app=x;tier=y", "app = x", "app\n=x", "-x", "名=x", "app=" + strings.Repeat("y", 63)}
					for _, s := range []string{"get", "create"} {
						for _, cl := range cls {
							for _, f := range clusterForms(cl) {
								if !emit(Case{Args: append([]string{s, "pods"}, f...)}) {
									return
								}
							}
						}
						for _, sl := range sels {
							for _, f := range selectorForms(sl) {
								if sl == "" && f[len(f)-1] != "" && f[len(f)-1] != "--selector=" {
									continue // not a value for kubectl
								}
								for _, cl := range []string{"", "c1", "c2,c1"} {
									a := append([]string{s, "pods"}, f...)
									if cl != "" {
										a = append(a, "--clusters", cl)
									}
									if !emit(Case{Args: a}) {
										return
									}
								}
							}
							for i, cl := range cls {
								if !c.Thorough() && i%9 != 0 {
									continue
								}
								if !emit(Case{Args: []string{s, "--clusters=" + cl, "-l", sl, "x"}}) {
									return
								}
							}
						}
					}
				}, run),
			mc.Cases("process", opt("8 ways kubectl ends, 5 inputs, 6 subcommands, with and without clusters, and without kubectl"),
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, st := range []string{"0", "1", "2", "3", "42", "127", "255", "kill"} {
						for _, in := range []string{"", "a\n", "a\nb\n", strings.Repeat("line\n", 2000), "名\n"} {
							for _, a := range [][]string{{"get", "pods"}, {"create", "-f", "-"}, {"delete", "x"}, {"describe", "pods"}, {"apply", "-f", "-"}, {"gets"}} {
								for _, cl := range []string{"", "c1", "c1,c2"} {
									args := append([]string{}, a...)
									if cl != "" {
										args = append(args, "--clusters", cl)
									}
									if !emit(Case{Args: args, Status: st, Stdin: in}) || st == "0" && !emit(Case{Args: args, Gone: true}) {
										return
									}
								}
							}
						}
					}
					for _, a := range [][]string{{}, {"-A"}, {"--clusters", "get"}, {"--clusters=c1"}, {"-n", "x"}} {
						if !emit(Case{Args: a}) {
							return
						}
					}
				}, run),
			mc.Cases("cli", opt("8 pages, 7 sizes, 9 sorts, 24 searches and 14 cluster lists in pairs (thorough: in triples), in 3 forms"),
				func(c *mc.Ctx, emit func(CLI) bool) {
					vals := [][]string{
						{"1", "0", "2", "10", "99999999999", "-1", "9223372036854775807"},
						{"10", "0", "1", "500", "-5", "9007199254740993"},
						{"name", "name asc", "created_at!int desc, name", "a!str", "'", " ", "名 desc", "%d%s"},
						{"name=a", "name=\"a\"", "a", "!a", "name=!a", "name=a;namespace=n", "namespace=x y", "__ckube_as__:name in (a,b)", "__ckube_as__:name!=a;namespace=n", "namespace=n;__ckube_as__:name=ab", "__ckube_as__:name,namespace notin (n)", "namespace=a;;b", "a;;b", " a ", "名", "?%~>", "name=", "a;", ";a", "%s", "namespace=n;__ckube_as__:name", "name=a;__ckube_as__:is_deleted=false;b", "__ckube_as__:name=a;__ckube_as__:namespace=n"},
						{"c1", "c1,c2", "c2,c1,c3", "c", "", "c1,", ",", "a b", "a;b", "名", "kubernetes-admin@kubernetes", "x=y", "-", "__ckube_as__:x"},
					}
					n := 2
					if c.Thorough() {
						n = 3
					}
					var rec func(c CLI, from, left int) bool
					rec = func(cl CLI, from, left int) bool {
						for f := 0; f < 3; f++ {
							cl.Form = f
							if !emit(cl) {
								return false
							}
						}
						if left == 0 {
							return true
						}
						for o := from; o < len(vals); o++ {
							for _, v := range vals[o] {
								d := cl
								*[]*string{&d.Page, &d.Size, &d.Sort, &d.Search, &d.Clster}[o] = v
								if !rec(d, o+1, left-1) {
									return false
								}
							}
						}
						return true
					}
					rec(CLI{}, 0, n)
				}, cli),
		},
	})
}
