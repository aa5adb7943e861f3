// C25: the fake server's discovery describes exactly the configured types.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/discovery"
	"k8s.io/client-go/dynamic"
	"k8s.io/client-go/rest"
	"k8s.io/client-go/restmapper"

	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/pkg/client/fake"
)

type typ struct{ Group, Version, Resource, Kind string }

// types that a configuration may name; each differs from another one in a single field
var types = []typ{
	{"", "v1", "pods", "Pod"},
	{"apps", "v1", "deployments", "Deployment"},
	{"x.io", "v1", "widgets", "Widget"},
	{"x.io", "v2", "widgets", "Widget"},
	{"x.io", "v1beta1", "widgets", "Widget"},
	{"x.io", "v1", "pods", "Pod"},
	{"y.x.io", "v1", "widgets", "Widget"},
	{"", "v1", "nodes", "Node"},
	{"apps", "v1beta1", "nodes", "Node"},
	{"x.io", "v1", "listlists", "ListList"},
	{"x", "v1", "gadgets", "GadgetSpec"},
}

func (t typ) gv() string { return strings.TrimPrefix(t.Group+"/"+t.Version, "/") }

func (t typ) base() string {
	if t.Group == "" {
		return "/api/" + t.Version
	}
	return "/apis/" + t.gv()
}

// Case is a configuration: types by number.
type Case struct{ Types []int }

func config(ts []typ) string {
	ps := []map[string]interface{}{}
	for _, t := range ts {
		ps = append(ps, map[string]interface{}{"group": t.Group, "version": t.Version, "resource": t.Resource, "list_kind": t.Kind + "List",
			"index": map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}"}})
	}
	return mc.J(map[string]interface{}{"default_cluster": "c1", "proxies": ps})
}

func start(cfg string) (fake.CkubeServer, error) {
	for i := 0; i < 50; i++ {
		addr, err := world.FreePort()
		if err != nil {
			return nil, fmt.Errorf("HARNESS: %v", err)
		}
		if s, err := fake.NewFakeCKubeServer(addr, cfg); err == nil {
			return s, nil
		}
	}
	return nil, fmt.Errorf("no server can be started")
}

func get(rc *rest.Config, path string) (int, []byte, error) {
	c := http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	r, err := c.Get(rc.Host + path)
	if err != nil {
		return 0, nil, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return r.StatusCode, b, err
}

func same(got, want []string) bool {
	sort.Strings(got)
	sort.Strings(want)
	return reflect.DeepEqual(got, want) || len(got) == 0 && len(want) == 0
}

func run(l *mc.Local, c Case) error {
	var ts []typ
	for _, i := range c.Types {
		ts = append(ts, types[i])
	}
	cfg := config(ts)
	s, err := start(cfg)
	if err != nil {
		return err
	}
	defer s.Stop()
	rc := rest.CopyConfig(s.GetKubeConfig())
	rc.QPS = -1
	rc.Timeout = time.Minute
	l.State(cfg)

	// the model
	versions := map[string][]string{}
	resources := map[string][]string{}
	var all []string
	for _, t := range ts {
		if resources[t.gv()] == nil {
			versions[t.Group] = append(versions[t.Group], t.Version)
		}
		resources[t.gv()] = append(resources[t.gv()], t.Resource+" "+t.Kind)
		all = append(all, t.gv()+" "+t.Resource+" "+t.Kind)
	}

	// the documents
	code, b, err := get(rc, "/apis")
	l.Step(1)
	if err != nil {
		return err
	}
	var gl metav1.APIGroupList
	if code != 200 || json.Unmarshal(b, &gl) != nil {
		return fmt.Errorf("/apis answers %d %.300q", code, b)
	}
	seen := map[string]bool{}
	for _, g := range gl.Groups {
		if g.Name == "" {
			return fmt.Errorf("/apis lists the core group, which is at /api: %s", b)
		}
		if seen[g.Name] {
			return fmt.Errorf("/apis lists group %s twice: %s", g.Name, b)
		}
		seen[g.Name] = true
		if versions[g.Name] == nil {
			return fmt.Errorf("/apis lists group %s, which is not configured: %s", g.Name, b)
		}
		var got []string
		pref := false
		for _, v := range g.Versions {
			if v.GroupVersion != g.Name+"/"+v.Version {
				return fmt.Errorf("version %q of group %s is called %q", v.Version, g.Name, v.GroupVersion)
			}
			got = append(got, v.Version)
			pref = pref || v == g.PreferredVersion
		}
		if !same(got, append([]string{}, versions[g.Name]...)) {
			return fmt.Errorf("group %s has versions %q at /apis, configured are %q", g.Name, got, versions[g.Name])
		}
		if !pref {
			return fmt.Errorf("the preferred version %v of group %s is none of its versions", g.PreferredVersion, g.Name)
		}
	}
	for g := range versions {
		if g != "" && !seen[g] {
			return fmt.Errorf("group %s is missing at /apis: %s", g, b)
		}
	}
	code, b, err = get(rc, "/api")
	l.Step(1)
	if err != nil {
		return err
	}
	var av metav1.APIVersions
	if code != 200 || json.Unmarshal(b, &av) != nil {
		return fmt.Errorf("/api answers %d %.300q", code, b)
	}
	core := map[string]bool{}
	for _, v := range av.Versions {
		if core[v] {
			return fmt.Errorf("/api lists %s twice: %s", v, b)
		}
		core[v] = true
		if v != "v1" && !contains(versions[""], v) { // v1 always exists
			return fmt.Errorf("/api lists %s, which is not configured: %s", v, b)
		}
	}
	for _, v := range versions[""] {
		if !core[v] {
			return fmt.Errorf("core version %s is missing at /api: %s", v, b)
		}
	}
	// every group and version of the alphabet, configured or not
	done := map[string]bool{}
	for _, t := range append(append([]typ{}, types...), typ{"x.io", "v9", "", ""}, typ{"z.io", "v1", "", ""}) {
		if done[t.gv()] {
			continue
		}
		done[t.gv()] = true
		code, b, err := get(rc, t.base())
		l.Step(1)
		if err != nil {
			return err
		}
		want := append([]string{}, resources[t.gv()]...)
		var rl metav1.APIResourceList
		_ = json.Unmarshal(b, &rl)
		if code != 200 {
			if len(want) > 0 || code != 404 {
				return fmt.Errorf("%s answers %d %.300q", t.base(), code, b)
			}
			continue
		}
		var got []string
		for _, r := range rl.APIResources {
			got = append(got, r.Name+" "+r.Kind)
			// as an API server, and client-go, would understand it
			if g, v := r.Group, r.Version; g != "" && g != t.Group || v != "" && v != t.Version {
				return fmt.Errorf("%s says that %s is of %s/%s", t.base(), r.Name, g, v)
			}
			for _, verb := range []string{"get", "list", "watch", "create", "update", "delete"} {
				if !contains(r.Verbs, verb) {
					return fmt.Errorf("%s: %s lacks the verb %s", t.base(), r.Name, verb)
				}
			}
		}
		if rl.GroupVersion != t.gv() || !same(got, want) {
			return fmt.Errorf("%s lists %q of %q, configured are %q", t.base(), got, rl.GroupVersion, want)
		}
	}

	// what a client makes of it
	dc, err := discovery.NewDiscoveryClientForConfig(rc)
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	l.Step(1)
	_, rls, err := dc.ServerGroupsAndResources()
	if err != nil {
		return fmt.Errorf("client-go's discovery fails: %v", err)
	}
	var got []string
	for _, rl := range rls {
		for _, r := range rl.APIResources {
			got = append(got, rl.GroupVersion+" "+r.Name+" "+r.Kind)
		}
	}
	if !same(got, append([]string{}, all...)) {
		return fmt.Errorf("client-go discovers %q, configured are %q", got, all)
	}
	grs, err := restmapper.GetAPIGroupResources(dc)
	if err != nil {
		return fmt.Errorf("no mapping: %v", err)
	}
	mapper := restmapper.NewDiscoveryRESTMapper(grs)
	dyn, err := dynamic.NewForConfig(rc)
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	ctx := context.Background()
	for n, t := range ts {
		m, err := mapper.RESTMapping(schema.GroupKind{Group: t.Group, Kind: t.Kind}, t.Version)
		if err != nil {
			return fmt.Errorf("no mapping of kind %s of %s: %v", t.Kind, t.gv(), err)
		}
		if m.Resource != (schema.GroupVersionResource{Group: t.Group, Version: t.Version, Resource: t.Resource}) {
			return fmt.Errorf("kind %s of %s is mapped to %v", t.Kind, t.gv(), m.Resource)
		}
		// an object of a discovered type is created and found there, and nowhere else
		for _, cl := range []string{"c1", "c2"} {
			name := fmt.Sprintf("o%d-%s", n, cl)
			o := &unstructured.Unstructured{Object: map[string]interface{}{"apiVersion": t.gv(), "kind": t.Kind, "metadata": map[string]interface{}{"name": name, "namespace": "n"}}}
			co, _ := page.QueryCreateOptions(metav1.CreateOptions{}, cl)
			l.Step(1)
			if _, err := dyn.Resource(m.Resource).Namespace("n").Create(ctx, o, co); err != nil {
				return fmt.Errorf("creating %s: %v", mc.J(o.Object), err)
			}
		}
	}
	for n, t := range ts {
		p := page.Paginate{}
		_ = p.Clusters([]string{"c1", "c2"})
		lo, _ := page.QueryListOptions(metav1.ListOptions{}, p)
		r, err := dyn.Resource(schema.GroupVersionResource{Group: t.Group, Version: t.Version, Resource: t.Resource}).Namespace("n").List(ctx, lo)
		l.Step(1)
		if err != nil {
			return fmt.Errorf("list of %s of %s: %v", t.Resource, t.gv(), err)
		}
		var got []string
		for _, i := range r.Items {
			got = append(got, i.GetName())
		}
		want := []string{fmt.Sprintf("o%d-c1", n), fmt.Sprintf("o%d-c2", n)}
		if !same(got, want) || r.GetKind() != t.Kind+"List" || r.GetAPIVersion() != t.gv() {
			return fmt.Errorf("list of %s of %s: %s %s %q, expected %q", t.Resource, t.gv(), r.GetAPIVersion(), r.GetKind(), got, want)
		}
	}
	l.Outcome(fmt.Sprint(len(gl.Groups), len(av.Versions), len(all)))
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func main() {
	world.Quiet()
	if mc.IsWorker() {
		h := mc.H(run)
		mc.Worker(map[string]func(*mc.Local, json.RawMessage) error{"sequences": h, "all": h})
	}
	lim := 2 * time.Minute
	mc.Main(mc.Def{ID: "C25",
		Oracle: "the groups, versions and resources computed from the configuration; client-go's discovery client, REST mapper and dynamic client",
		Assume: []string{"the core group has the version v1 only, which may be listed although nothing of it is configured", "a group and version without resources may be answered with 404 or with an empty list", "every type is said to be namespaced: the configuration does not tell"},
		Families: []mc.Family{
			mc.Cases("sequences", mc.Opts{Bound: fmt.Sprintf("every ordered configuration of up to 3 (thorough 4) of %d types", len(types)), Confirm: 1},
				func(c *mc.Ctx, emit func(Case) bool) {
					for n := 0; n <= mc.Pick(c, 3, 4); n++ {
						ok := true
						mc.Words(len(types), n, func(w []int) bool {
							if len(w) != n {
								return true
							}
							for i := range w {
								for j := 0; j < i; j++ {
									if w[i] == w[j] {
										return true
									}
								}
							}
							ok = emit(Case{append([]int{}, w...)})
							return ok
						})
						if !ok {
							return
						}
					}
				}, mc.Remote[Case]("sequences", "", lim)),
			mc.Cases("all", mc.Opts{Bound: "every rotation of the list of all types, forwards and backwards, and every list of all but one or two types", Confirm: 1},
				func(c *mc.Ctx, emit func(Case) bool) {
					n := len(types)
					for r := 0; r < n; r++ {
						var f, b []int
						for i := 0; i < n; i++ {
							f = append(f, (r+i)%n)
							b = append(b, (r+n-i)%n)
						}
						if !emit(Case{f}) || !emit(Case{b}) {
							return
						}
					}
					for i := 0; i < n; i++ {
						for j := i; j < n; j++ {
							var w []int
							for k := n - 1; k >= 0; k-- {
								if k != i && k != j {
									w = append(w, k)
								}
							}
							if !emit(Case{w}) {
								return
							}
						}
					}
				}, mc.Remote[Case]("all", "", lim)),
		},
	})
}
