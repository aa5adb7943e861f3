// C13: typed-client options address the intended cluster and nothing else changes.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"
	"sync"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/dynamic"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"
	"k8s.io/client-go/util/flowcontrol"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/page"
)

var names = []string{"c1", "c2", "other", "kubernetes-admin@kubernetes", "名字", "a;b", "a=b&c=d", "!x", "a,b", "a b", " a", "a ", `q"q`, `\`, "<none>", "arn:aws:eks:eu-1:1:cluster/x", "%41", "a+b", "-c", "null", "*", strings.Repeat("l", 63), strings.Repeat("l", 300), "\t\n", "dsm-cluster-c1", "dsm-cluster-", "?#", "../x", "e\u0301", "cluster", "All", "\u2028", "<>&'", "C1"}

type bench struct {
	w      *world.World
	direct *world.Up
	via    *rest.Config
	dir    *rest.Config
}

type router struct{ w *world.World }

func (t router) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
	}
	q := httptest.NewRequest(r.Method, r.URL.RequestURI(), strings.NewReader(string(body)))
	q.Header = r.Header.Clone()
	rec := httptest.NewRecorder()
	t.w.Router.ServeHTTP(rec, q)
	res := rec.Result()
	res.Request = r
	return res, nil
}

var pool sync.Pool

const answer = `{"kind":"Pod","apiVersion":"v1","metadata":{"name":"x","namespace":"m1"}}`

func setup(c *mc.Ctx) {
	cfg := gen.Config("c1", "k")
	world.New(cfg)
	pool = sync.Pool{New: func() interface{} {
		b := &bench{w: world.New(cfg, names...), direct: &world.Up{Cluster: "direct"}}
		h := func(r *http.Request, _ []byte) (*http.Response, error) { return world.Response(r, 200, answer), nil }
		b.direct.Handler = h
		for _, u := range b.w.Ups {
			u.Handler = h
		}
		for i, n := range names {
			gen.Fill(b.w.Store, []gen.Spec{{C: n, N: "m1", O: "x", K: map[string]string{"k": fmt.Sprint(i)}}}, true, true)
		}
		rl := flowcontrol.NewFakeAlwaysRateLimiter()
		b.via = &rest.Config{Host: "http://ckube", Transport: router{b.w}, RateLimiter: rl}
		b.dir = &rest.Config{Host: "http://direct", Transport: b.direct, RateLimiter: rl}
		return b
	}}
}

// Case of one call.
type Case struct {
	Cl   int
	Verb string
	Res  string // service, node, pod (cached), status, dynamic
	Name string
	Opt  int
	Body int `json:",omitempty"`
	PT   int `json:",omitempty"`
}

var pts = []types.PatchType{types.JSONPatchType, types.MergePatchType, types.StrategicMergePatchType, types.ApplyPatchType}

func p[T any](v T) *T { return &v }

// options: field values besides the marker
var createOpts = []metav1.CreateOptions{{}, {DryRun: []string{"All"}}, {DryRun: []string{"All", "x y"}}, {TypeMeta: metav1.TypeMeta{Kind: "CreateOptions", APIVersion: "v1"}}}
var updateOpts = []metav1.UpdateOptions{{}, {DryRun: []string{"All"}}, {DryRun: []string{"All", "x y"}}, {TypeMeta: metav1.TypeMeta{Kind: "UpdateOptions"}}}
var patchOpts = []metav1.PatchOptions{{}, {DryRun: []string{"All"}}, {Force: p(true)}, {Force: p(false), DryRun: []string{"All", "b"}}}
var getOpts = []metav1.GetOptions{{}, {TypeMeta: metav1.TypeMeta{Kind: "GetOptions", APIVersion: "v1"}}, {}, {}}
var deleteOpts = []metav1.DeleteOptions{{}, {GracePeriodSeconds: p(int64(0))}, {PropagationPolicy: p(metav1.DeletePropagationForeground), GracePeriodSeconds: p(int64(30))},
	{Preconditions: &metav1.Preconditions{UID: p(types.UID("u<>1")), ResourceVersion: p("12")}, OrphanDependents: p(true), TypeMeta: metav1.TypeMeta{Kind: "DeleteOptions", APIVersion: "v1"}}}

var annos = []map[string]string{nil, {"a": "1"}, {"x": `q"\ <&> 名`, "ckube.doacloud.io/cluster": "mine", "big": strings.Repeat("z", 5000)}}

func meta(c Case) metav1.ObjectMeta {
	return metav1.ObjectMeta{Name: c.Name, Annotations: annos[c.Body]}
}

// call makes the call with options prepared by mark.
func call(cfg *rest.Config, c Case, marked bool) error {
	ctx := context.Background()
	cl := names[c.Cl]
	g, co, uo, po, do := getOpts[c.Opt], createOpts[c.Opt], updateOpts[c.Opt], patchOpts[c.Opt], deleteOpts[c.Opt]
	if marked {
		var err error
		switch c.Verb {
		case "get":
			g, err = page.QueryGetOptions(g, cl)
		case "create":
			co, err = page.QueryCreateOptions(co, cl)
		case "update":
			uo, err = page.QueryUpdateOptions(uo, cl)
		case "patch":
			po, err = page.QueryPatchOptions(po, cl)
		case "delete", "deletecollection":
			do, err = page.QueryDeleteOptions(do, cl)
		}
		if err != nil {
			return fmt.Errorf("preparing options: %v", err)
		}
	}
	pt := pts[c.PT]
	data := []byte(`{"metadata":{"annotations":{"a":"1.0"}}}`)
	if pt == types.JSONPatchType {
		data = []byte(`[{"op":"add","path":"/x","value":1}]`)
	}
	if c.Res == "dynamic" || c.Res == "cached-dynamic" {
		d, err := dynamic.NewForConfig(cfg)
		if err != nil {
			return err
		}
		gvr := schema.GroupVersionResource{Group: "y.io", Version: "v2", Resource: "gadgets"}
		if c.Res == "cached-dynamic" {
			gvr = schema.GroupVersionResource{Group: "x.io", Version: "v1", Resource: "widgets"}
		}
		i := d.Resource(gvr).Namespace("m1")
		o := &unstructured.Unstructured{Object: map[string]interface{}{"kind": "Gadget", "apiVersion": "y.io/v2", "metadata": map[string]interface{}{"name": c.Name}, "spec": map[string]interface{}{"n": int64(9007199254740993), "e": ""}}}
		switch c.Verb {
		case "get":
			var u *unstructured.Unstructured
			u, err = i.Get(ctx, c.Name, g)
			if err == nil && marked && c.Res == "cached-dynamic" && u.GetAnnotations()["k"] != fmt.Sprint(c.Cl) {
				return fmt.Errorf("got the object of cluster number %s", u.GetAnnotations()["k"])
			}
		case "create":
			_, err = i.Create(ctx, o, co)
		case "update":
			_, err = i.Update(ctx, o, uo)
		case "patch":
			_, err = i.Patch(ctx, c.Name, pt, data, po)
		case "delete":
			err = i.Delete(ctx, c.Name, do)
		case "deletecollection":
			err = i.DeleteCollection(ctx, do, metav1.ListOptions{LabelSelector: "a=1"})
		}
		return err
	}
	k, err := kubernetes.NewForConfig(cfg)
	if err != nil {
		return err
	}
	switch c.Res {
	case "node":
		i := k.CoreV1().Nodes()
		switch c.Verb {
		case "get":
			_, err = i.Get(ctx, c.Name, g)
		case "create":
			_, err = i.Create(ctx, &corev1.Node{ObjectMeta: meta(c)}, co)
		case "update":
			_, err = i.Update(ctx, &corev1.Node{ObjectMeta: meta(c)}, uo)
		case "patch":
			_, err = i.Patch(ctx, c.Name, pt, data, po)
		case "delete":
			err = i.Delete(ctx, c.Name, do)
		case "deletecollection":
			err = i.DeleteCollection(ctx, do, metav1.ListOptions{})
		}
	case "service":
		i := k.CoreV1().Services("m1")
		switch c.Verb {
		case "get":
			_, err = i.Get(ctx, c.Name, g)
		case "create":
			_, err = i.Create(ctx, &corev1.Service{ObjectMeta: meta(c)}, co)
		case "update":
			_, err = i.UpdateStatus(ctx, &corev1.Service{ObjectMeta: meta(c)}, uo)
		case "patch":
			_, err = i.Patch(ctx, c.Name, pt, data, po, "status")
		case "delete":
			err = i.Delete(ctx, c.Name, do)
		}
	case "pod":
		i := k.CoreV1().Pods("m1")
		pod := &corev1.Pod{ObjectMeta: meta(c), Spec: corev1.PodSpec{NodeName: "n"}}
		switch c.Verb {
		case "get":
			var o *corev1.Pod
			o, err = i.Get(ctx, c.Name, g)
			if err == nil && marked && o.Annotations["k"] != fmt.Sprint(c.Cl) {
				return fmt.Errorf("got the object of cluster number %s", o.Annotations["k"])
			}
		case "create":
			_, err = i.Create(ctx, pod, co)
		case "update":
			_, err = i.Update(ctx, pod, uo)
		case "patch":
			_, err = i.Patch(ctx, c.Name, pt, data, po)
		case "delete":
			err = i.Delete(ctx, c.Name, do)
		case "deletecollection":
			err = i.DeleteCollection(ctx, do, metav1.ListOptions{LabelSelector: "a=1", FieldSelector: "x=y"})
		}
	}
	return err
}

func exec(x *mc.X, c Case) error {
	b := pool.Get().(*bench)
	defer pool.Put(b)
	b.direct.Take()
	b.w.Taken()
	if err := call(b.dir, c, false); err != nil {
		return fmt.Errorf("direct: %v", err)
	}
	d := b.direct.Take()
	err := call(b.via, c, true)
	up := b.w.Taken()
	x.Step(1)
	x.State(mc.J(c))
	if err != nil {
		return fmt.Errorf("%s %s %q in cluster %q: %v", c.Verb, c.Res, c.Name, names[c.Cl], err)
	}
	if (c.Res == "pod" || c.Res == "cached-dynamic") && c.Verb == "get" {
		if len(up) > 0 {
			return fmt.Errorf("cached get contacted %v", up)
		}
		x.Outcome("cached get")
		return nil
	}
	if len(d) == 0 && len(up) == 0 {
		return nil
	}
	if len(d) != 1 || len(up) != 1 {
		return fmt.Errorf("%s %s in cluster %q: forwarded %d times: %v", c.Verb, c.Res, names[c.Cl], len(up), up)
	}
	g := up[0]
	if err := same(c.Cl, up[0], d[0]); err != nil {
		return fmt.Errorf("%s %s: %v", c.Verb, c.Res, err)
	}
	x.Outcome(g.Method + g.Path)
	x.Sample(map[string]string{"cluster": names[c.Cl], "seen": g.String()})
	return nil
}

// same says whether the request that arrived is the one the client sends without ckube.
func same(cl int, g, w world.UpReq) error {
	if g.Cluster != names[cl] {
		return fmt.Errorf("the request for cluster %q went to %q", names[cl], g.Cluster)
	}
	gq, _ := url.ParseQuery(g.RawQ)
	wq, _ := url.ParseQuery(w.RawQ)
	if !wq.Has("timeout") {
		gq.Del("timeout")
	}
	if g.Method != w.Method || g.Path != w.Path || !reflect.DeepEqual(gq, wq) {
		return fmt.Errorf("the API server saw %s %s?%s, without ckube it is %s %s?%s", g.Method, g.Path, g.RawQ, w.Method, w.Path, w.RawQ)
	}
	if g.Method == "DELETE" {
		var a, e interface{}
		_ = json.Unmarshal([]byte(g.Body), &a)
		_ = json.Unmarshal([]byte(w.Body), &e)
		if !reflect.DeepEqual(a, e) {
			return fmt.Errorf("the API server saw the body %q, without ckube it is %q", g.Body, w.Body)
		}
	} else if g.Body != w.Body {
		return fmt.Errorf("the API server saw the body %q, without ckube it is %q", g.Body, w.Body)
	}
	if g.Method == "PATCH" && g.Header.Get("Content-Type") != w.Header.Get("Content-Type") {
		return fmt.Errorf("patch type %q became %q", w.Header.Get("Content-Type"), g.Header.Get("Content-Type"))
	}
	return nil
}

// Refuse: the carrying field is taken.
type Refuse struct {
	Verb, V string
	Cl      int
}

func refuse(x *mc.X, c Refuse) error {
	x.Step(1)
	x.State(mc.J(c))
	var err error
	var before, after interface{}
	switch c.Verb {
	case "get":
		o := metav1.GetOptions{ResourceVersion: c.V}
		before = o
		after, err = page.QueryGetOptions(o, names[c.Cl])
	case "create":
		o := metav1.CreateOptions{FieldManager: c.V, DryRun: []string{"All"}}
		before = o
		after, err = page.QueryCreateOptions(o, names[c.Cl])
	case "update":
		o := metav1.UpdateOptions{FieldManager: c.V}
		before = o
		after, err = page.QueryUpdateOptions(o, names[c.Cl])
	case "patch":
		o := metav1.PatchOptions{FieldManager: c.V, Force: p(true)}
		before = o
		after, err = page.QueryPatchOptions(o, names[c.Cl])
	case "delete":
		o := metav1.DeleteOptions{DryRun: []string{c.V}}
		before = o
		after, err = page.QueryDeleteOptions(o, names[c.Cl])
	}
	if err == nil {
		return fmt.Errorf("%s options that carry %q were overwritten: %+v", c.Verb, c.V, after)
	}
	if !reflect.DeepEqual(before, after) {
		return fmt.Errorf("%s options that carry %q were refused but changed to %+v", c.Verb, c.V, after)
	}
	x.Outcome("refused")
	return nil
}

// variants of the option structs: every field but the carrying one with some values.
func variants(zero interface{}, carrier string) []reflect.Value {
	t := reflect.TypeOf(zero)
	vals := func(f reflect.StructField) []interface{} {
		switch f.Name {
		case "TypeMeta":
			return []interface{}{metav1.TypeMeta{Kind: t.Name(), APIVersion: "v1"}, metav1.TypeMeta{Kind: t.Name(), APIVersion: "meta.k8s.io/v1"}}
		case "GracePeriodSeconds":
			return []interface{}{p(int64(0)), p(int64(1)), p(int64(30)), p(int64(-1)), p(int64(1) << 40)}
		case "Preconditions":
			return []interface{}{&metav1.Preconditions{}, &metav1.Preconditions{UID: p(types.UID("u"))}, &metav1.Preconditions{ResourceVersion: p("12")}, &metav1.Preconditions{UID: p(types.UID("")), ResourceVersion: p("0")}}
		case "OrphanDependents", "Force":
			return []interface{}{p(true), p(false)}
		case "PropagationPolicy":
			return []interface{}{p(metav1.DeletePropagationOrphan), p(metav1.DeletePropagationBackground), p(metav1.DeletePropagationForeground), p(metav1.DeletionPropagation(""))}
		case "DryRun":
			return []interface{}{[]string{"All"}, []string{"All", "All"}, []string{""}, []string{"dsm-cluster-c2"}, []string{}}
		case "FieldManager":
			return []interface{}{"me", "dsm-cluster", "kubectl-client-side-apply", "a b&c=d"}
		}
		return nil
	}
	res := []reflect.Value{reflect.New(t).Elem()}
	var set func(v reflect.Value, from, left int)
	set = func(v reflect.Value, from, left int) {
		for i := from; i < t.NumField(); i++ {
			if t.Field(i).Name == carrier {
				continue
			}
			for _, val := range vals(t.Field(i)) {
				n := reflect.New(t).Elem()
				n.Set(v)
				n.Field(i).Set(reflect.ValueOf(val))
				res = append(res, n)
				if left > 1 {
					set(n, i+1, left-1)
				}
			}
		}
	}
	set(res[0], 0, 3)
	return res
}

var variantsOf = map[string][]reflect.Value{
	"get": variants(metav1.GetOptions{}, "ResourceVersion"), "create": variants(metav1.CreateOptions{}, "FieldManager"),
	"update": variants(metav1.UpdateOptions{}, "FieldManager"), "patch": variants(metav1.PatchOptions{}, "FieldManager"), "delete": variants(metav1.DeleteOptions{}, "DryRun"),
}

// Step is one call: verb, options (a number in variantsOf), cluster, object, resource (path of the client) and namespace.
type Step struct {
	Verb   string
	V      int `json:",omitempty"`
	Cl     int
	Name   string
	NS     string `json:",omitempty"`
	Sub    string `json:",omitempty"`
	Res    string `json:",omitempty"`
	Reused bool   `json:",omitempty"` // the options had been prepared for another cluster before
	More   int    `json:",omitempty"` // a further option is set after preparing, or before for the direct request
}

type Steps struct{ S []Step }

// dry runs that are asked for beside others
var dry = [][]string{{"All"}, {"All", "All"}, {"x"}, {"All", "dsm-cluster-c2"}}

// more sets a further option.
func more(o interface{}, n int) interface{} {
	d := dry[n-1]
	switch v := o.(type) {
	case metav1.CreateOptions:
		v.DryRun = append(v.DryRun[:len(v.DryRun):len(v.DryRun)], d...)
		return v
	case metav1.UpdateOptions:
		v.DryRun = append(v.DryRun[:len(v.DryRun):len(v.DryRun)], d...)
		return v
	case metav1.PatchOptions:
		v.DryRun = append(v.DryRun[:len(v.DryRun):len(v.DryRun)], d...)
		return v
	case metav1.DeleteOptions:
		v.DryRun = append(v.DryRun[:len(v.DryRun):len(v.DryRun)], d...)
		return v
	}
	return o
}

func (s Step) do(cfg *rest.Config, marked bool) error {
	d, err := dynamic.NewForConfig(cfg)
	if err != nil {
		return err
	}
	gvr := schema.GroupVersionResource{Group: "y.io", Version: "v2", Resource: "gadgets"}
	if s.Res == "widgets" {
		gvr = schema.GroupVersionResource{Group: "x.io", Version: "v1", Resource: "widgets"}
	} else if s.Res != "" {
		gvr.Resource = s.Res
	}
	var i dynamic.ResourceInterface = d.Resource(gvr)
	if s.NS != "" {
		i = d.Resource(gvr).Namespace(s.NS)
	}
	o := variantsOf[s.Verb][s.V].Interface()
	mark := func(cl string) error {
		before := fmt.Sprint(mc.J(o))
		var r interface{}
		var err error
		switch v := o.(type) {
		case metav1.GetOptions:
			r, err = page.QueryGetOptions(v, cl)
		case metav1.CreateOptions:
			r, err = page.QueryCreateOptions(v, cl)
		case metav1.UpdateOptions:
			r, err = page.QueryUpdateOptions(v, cl)
		case metav1.PatchOptions:
			r, err = page.QueryPatchOptions(v, cl)
		case metav1.DeleteOptions:
			r, err = page.QueryDeleteOptions(v, cl)
		}
		if err != nil {
			return fmt.Errorf("preparing options: %v", err)
		}
		if after := fmt.Sprint(mc.J(o)); after != before {
			return fmt.Errorf("the caller's options %s became %s", before, after)
		}
		if cl == names[s.Cl] {
			o = r
		}
		return nil
	}
	if marked {
		if s.Reused {
			if err := mark("another"); err != nil {
				return err
			}
		}
		if err := mark(names[s.Cl]); err != nil {
			return err
		}
	}
	if s.More > 0 {
		o = more(o, s.More)
	}
	ctx := context.Background()
	u := &unstructured.Unstructured{Object: map[string]interface{}{"kind": "Gadget", "apiVersion": "y.io/v2", "metadata": map[string]interface{}{"name": s.Name}, "spec": map[string]interface{}{"verb": s.Verb}}}
	var sub []string
	if s.Sub != "" {
		sub = []string{s.Sub}
	}
	switch v := o.(type) {
	case metav1.GetOptions:
		var u *unstructured.Unstructured
		u, err = i.Get(ctx, s.Name, v, sub...)
		if err == nil && marked && s.Res == "widgets" && u.GetAnnotations()["k"] != fmt.Sprint(s.Cl) {
			return fmt.Errorf("got the object of cluster number %s", u.GetAnnotations()["k"])
		}
	case metav1.CreateOptions:
		_, err = i.Create(ctx, u, v, sub...)
	case metav1.UpdateOptions:
		_, err = i.Update(ctx, u, v, sub...)
	case metav1.PatchOptions:
		_, err = i.Patch(ctx, s.Name, types.MergePatchType, []byte(`{"a":"b"}`), v, sub...)
	case metav1.DeleteOptions:
		err = i.Delete(ctx, s.Name, v, sub...)
	}
	return err
}

func steps(x *mc.X, t Steps) error {
	b := pool.Get().(*bench)
	defer pool.Put(b)
	for n, s := range t.S {
		b.direct.Take()
		b.w.Taken()
		if err := s.do(b.dir, false); err != nil {
			return fmt.Errorf("direct: %v", err)
		}
		d := b.direct.Take()
		err := s.do(b.via, true)
		up := b.w.Taken()
		x.Step(1)
		what := fmt.Sprintf("call %d of %s for cluster %q", n, mc.J(t.S), names[s.Cl])
		if s.Res == "widgets" && s.Verb == "get" && s.Sub == "" && s.NS == "m1" && s.Name == "x" {
			if err != nil || len(up) != 0 {
				return fmt.Errorf("%s: %v, contacted %v", what, err, up)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if len(d) != 1 {
			return fmt.Errorf("HARNESS: %d direct requests", len(d))
		}
		if len(up) != 1 {
			return fmt.Errorf("%s: forwarded %d times: %v", what, len(up), up)
		}
		if err := same(s.Cl, up[0], d[0]); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		x.Outcome(up[0].Method)
	}
	x.State(mc.J(t))
	return nil
}

func main() {
	mc.Main(mc.Def{
		ID:     "C13",
		Oracle: "the request the same client sends directly, without ckube and without the marker",
		Assume: []string{"clients use JSON (ckube forwards no content type but that of patches)", "delete bodies are compared as JSON values"},
		Families: []mc.Family{
			mc.Cases("calls", mc.Opts{Bound: "34 cluster names x 6 verbs x 5 kinds of resources (cached, uncached, cluster-scoped, custom) x 4 option sets x 3 bodies x 4 patch types", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, v := range []string{"get", "create", "update", "patch", "delete", "deletecollection"} {
						for _, r := range []string{"pod", "service", "node", "dynamic", "cached-dynamic"} {
							for o := 0; o < 4; o++ {
								for cl := range names {
									for _, b := range []int{0, 1, 2} {
										if b > 0 && v != "create" && v != "update" {
											continue
										}
										for pt := range pts {
											if pt > 0 && v != "patch" {
												continue
											}
											if !emit(Case{cl, v, r, "x", o, b, pt}) {
												return
											}
										}
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("options", mc.Opts{Bound: "every combination of up to 3 fields of the option structs of 5 verbs, 2 to 5 values each, fresh and already used for another cluster", Setup: setup},
				func(c *mc.Ctx, emit func(Steps) bool) {
					for v, vs := range variantsOf {
						for i := range vs {
							for _, r := range []bool{false, true} {
								if !emit(Steps{[]Step{{Verb: v, V: i, Cl: i % 3, Name: "x", NS: "m1", Reused: r}}}) {
									return
								}
							}
						}
					}
				}, steps),
			mc.Cases("extended", mc.Opts{Bound: "every combination of up to 3 fields of the option structs of 4 verbs, prepared for a cluster and then extended by 4 sorts of dry runs", Setup: setup},
				func(c *mc.Ctx, emit func(Steps) bool) {
					for _, v := range []string{"create", "update", "patch", "delete"} {
						for i := range variantsOf[v] {
							for n := 1; n <= len(dry); n++ {
								if !emit(Steps{[]Step{{Verb: v, V: i, Cl: (i + n) % 3, Name: "x", NS: "m1", More: n}}}) {
									return
								}
							}
						}
					}
				}, steps),
			mc.Cases("objects", mc.Opts{Bound: "5 verbs x 32 object names x 6 namespaces x 6 sub-resources, 3 clusters", Setup: setup},
				func(c *mc.Ctx, emit func(Steps) bool) {
					objs := []string{"x", "a.b-c", "system:node:n", "dsm-cluster-c2", "dsm-cluster", "c2", "0", "status", "x-y", strings.Repeat("n", 253), "a:b", "A", "proxy", "pods", "namespaces", "m1", "watch", "api", "v1", "clusters", "deployments", "services", "healthy", "metrics", "log", "exec", "_x", "a~b", "a@b", "a,b", "a=b", "a;b"}
					for _, v := range []string{"get", "create", "update", "patch", "delete"} {
						for _, o := range objs {
							for _, ns := range []string{"", "m1", "default", "kube-system", "c2", "namespaces"} {
								for i, sub := range []string{"", "status", "scale", "eviction", "log", "x"} {
									if !emit(Steps{[]Step{{Verb: v, Cl: i % 3, Name: o, NS: ns, Sub: sub}}}) {
										return
									}
								}
							}
						}
					}
					for _, r := range []string{"widgets", "namespaces", "watch", "proxy", "services", "deployments", "clusters"} {
						for _, v := range []string{"get", "create", "update", "patch", "delete"} {
							for _, ns := range []string{"", "m1"} {
								if r == "widgets" && ns == "" && v == "get" {
									continue
								}
								if !emit(Steps{[]Step{{Verb: v, Cl: 1, Name: "x", NS: ns, Res: r}}}) {
									return
								}
							}
						}
					}
				}, steps),
			mc.Cases("sequences", mc.Opts{Bound: "every sequence of up to 3 (thorough 4) calls of 5 verbs on one object in 2 clusters, and get of a cached one", Setup: setup},
				func(c *mc.Ctx, emit func(Steps) bool) {
					var a []Step
					for _, v := range []string{"get", "create", "update", "patch", "delete"} {
						for cl := 0; cl < 2; cl++ {
							a = append(a, Step{Verb: v, Cl: cl, Name: "x", NS: "m1"})
						}
					}
					for cl := 0; cl < 2; cl++ {
						a = append(a, Step{Verb: "get", Cl: cl, Name: "x", NS: "m1", Res: "widgets"}, Step{Verb: "delete", Cl: cl, Name: "x", NS: "m1", Res: "widgets"})
					}
					for l := 2; l <= mc.Pick(c, 3, 4); l++ {
						if !mc.Words(len(a), l, func(w []int) bool {
							var s []Step
							for _, i := range w {
								s = append(s, a[i])
							}
							return emit(Steps{s})
						}) {
							return
						}
					}
				}, steps),
			mc.Cases("refused", mc.Opts{Bound: "5 kinds of options x 6 values of the carrying field x 34 cluster names"},
				func(c *mc.Ctx, emit func(Refuse) bool) {
					for _, v := range []string{"get", "create", "update", "patch", "delete"} {
						for _, val := range []string{"0", "12", "me", "All", "dsm-cluster-c1", " "} {
							for cl := range names {
								if !emit(Refuse{v, val, cl}) {
									return
								}
							}
						}
					}
				}, refuse),
		},
	})
}
