// C19: the services of a deployment are exactly those selecting its pods.
package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/watcher"
)

var podsGVR, svcGVR = world.GVR("", "v1", "pods"), world.GVR("", "v1", "services")

type lab = map[string]string

const long = "a-deployment-with-a-name-that-is-much-longer-than-fifty-eight-characters"

// pod of the universe; Dep is the deployment it belongs to ("" none).
type pod struct {
	C, N, O, Dep, Kind, Owner string
	L                         lab
}

func rs(c, n, dep, hash, suffix string, l lab) pod {
	o := dep + "-" + hash
	return pod{c, n, o + "-" + suffix, dep, "ReplicaSet", o, l}
}

var pods = []pod{
	rs("c1", "n1", "web", "5d9", "aaa", lab{"app": "web", "tier": "f"}),
	rs("c1", "n1", "web", "7f7", "bbb", lab{"app": "web", "tier": "f"}),
	rs("c1", "n1", "web-api", "66", "ccc", lab{"app": "api", "tier": "f"}),
	rs("c1", "n1", "we", "b5d9", "ddd", lab{"app": "we"}),
	rs("c1", "n2", "web", "5d9", "aaa", lab{"app": "web2"}),
	rs("c2", "n1", "web", "5d9", "aaa", lab{"app": "webc2", "tier": "f"}),
	rs("c2", "n2", "api", "5d9", "aaa", lab{"app": "api"}),
	{"c1", "n1", "web-0", "", "StatefulSet", "web-5d9", lab{"app": "sts"}},
	{"c1", "n1", "web-5d9-zzz", "", "", "", lab{"app": "naked"}},
	{"c1", "n1", "web-job", "", "Job", "web-123", lab{"app": "job"}},
	{"c1", "n1", long[:58] + "xyzzy", long, "ReplicaSet", long + "-5d9", lab{"app": "long"}},
	rs("c1", "n1", "nolabels", "1", "a", nil),
	rs("c1", "n1", "a-b", "c", "x", lab{"app": "ab"}),
	rs("c1", "n1", "a-b-c", "d", "x", lab{"app": "abc"}),
	rs("c1", "n1", "a", "b", "x", lab{"app": ""}),
	{"c1", "n1", "web-qwert", "", "ReplicaSet", "web", lab{"app": "bare"}},
	rs("admin@k", "n1", "web", "5d9", "aaa", lab{"app": "admin"}),
	rs("c1", "n1x", "web", "5d9", "aaa", lab{"app": "n1x"}),
	{"c1", "n1", "anything", "other", "ReplicaSet", "other-5d9", lab{"app": "other", "tier": "b"}},
}

var sels = []lab{
	nil, {}, {"app": "web"}, {"app": "web", "tier": "f"}, {"app": "web", "tier": "b"}, {"tier": "f"}, {"app": "web", "x": "y"}, {"x": ""}, {"app": ""},
	{"app": "api"}, {"app": "we"}, {"app": "web2"}, {"app": "webc2"}, {"app": "sts"}, {"app": "naked"}, {"app": "job"}, {"app": "bare"}, {"app": "long"}, {"app": "ab"}, {"app": "abc"}, {"app": "admin"}, {"app": "n1x"}, {"tier": "b"}, {"web": "app"},
}

var places = [][2]string{{"c1", "n1"}, {"c1", "n2"}, {"c2", "n1"}, {"c2", "n2"}, {"admin@k", "n1"}, {"c1", "n1x"}}

// service of the universe: selector S at place P.
type svc struct{ P, S int }

func (s svc) name() string { return fmt.Sprintf("s%d", s.S) }

var deps = []string{"web", "web-api", "we", "api", long, long[:58], "nolabels", "a-b", "a-b-c", "a", "other", "web-5d9", "absent", "sts", "anything"}

// Case: the cached pods and services.
type Case struct {
	Pods []int
	Svcs []svc `json:",omitempty"` // nil: every selector at every place
	Obj  bool  `json:",omitempty"` // services as custom-type objects
	Del  bool  `json:",omitempty"` // two further pods and services were there and are gone
	PV   []int `json:",omitempty"` // the condition of each pod
	SV   int   `json:",omitempty"` // the condition of the services
}

// podConds and svcConds are conditions which change nothing about the pod's deployment and the service's selector.
var podConds = []func(o *corev1.Pod){
	func(o *corev1.Pod) {},
	func(o *corev1.Pod) { t := metav1.Unix(1700000000, 0); o.DeletionTimestamp = &t },
	func(o *corev1.Pod) { g := int64(30); o.DeletionGracePeriodSeconds = &g; o.Finalizers = []string{"f"} },
	func(o *corev1.Pod) { o.Status.Phase = corev1.PodPending },
	func(o *corev1.Pod) {
		o.Status.Phase = corev1.PodRunning
		o.Spec.NodeName = "node"
		o.Status.PodIP = "1.2.3.4"
	},
	func(o *corev1.Pod) { o.Status.Phase = corev1.PodSucceeded },
	func(o *corev1.Pod) { o.Status.Phase = corev1.PodFailed; o.Status.Reason = "Evicted" },
	func(o *corev1.Pod) { o.Status.Phase = corev1.PodUnknown },
	func(o *corev1.Pod) {
		o.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: corev1.ConditionFalse}}
	},
	func(o *corev1.Pod) {
		o.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: corev1.ConditionTrue}}
	},
	func(o *corev1.Pod) { o.Spec.HostNetwork = true; o.Spec.ServiceAccountName = "sa" },
	func(o *corev1.Pod) { o.Annotations = map[string]string{"a": "b"}; o.GenerateName = o.Name[:1] },
	func(o *corev1.Pod) { o.UID, o.ResourceVersion, o.Generation = "uid", "5", 3 },
	func(o *corev1.Pod) {
		t, f := true, false
		o.OwnerReferences[0].Controller, o.OwnerReferences[0].BlockOwnerDeletion = &t, &f
	},
	func(o *corev1.Pod) { // owners have no order
		o.OwnerReferences = append(o.OwnerReferences, metav1.OwnerReference{APIVersion: "x.io/v1", Kind: "Pool", Name: "pool-1", UID: "u2"})
	},
	func(o *corev1.Pod) {
		o.OwnerReferences = append([]metav1.OwnerReference{{APIVersion: "x.io/v1", Kind: "Pool", Name: "pool-1", UID: "u2"}, {APIVersion: "v1", Kind: "Node", Name: "node", UID: "u3"}}, o.OwnerReferences...)
	},
	func(o *corev1.Pod) {
		o.Spec.Containers = []corev1.Container{{Name: "c", Image: "i", Ports: []corev1.ContainerPort{{ContainerPort: 80}}}}
	},
}

var svcConds = []func(o *corev1.Service){
	func(o *corev1.Service) {},
	func(o *corev1.Service) { t := metav1.Unix(1700000000, 0); o.DeletionTimestamp = &t },
	func(o *corev1.Service) { o.Spec.ClusterIP = "None" },
	func(o *corev1.Service) { o.Spec.ClusterIP = ""; o.Spec.Ports = nil },
	func(o *corev1.Service) { o.Spec.Type = corev1.ServiceTypeNodePort },
	func(o *corev1.Service) {
		o.Spec.Type = corev1.ServiceTypeLoadBalancer
		o.Spec.ExternalIPs = []string{"1.1.1.1"}
	},
	func(o *corev1.Service) { o.Spec.PublishNotReadyAddresses = true },
	func(o *corev1.Service) { o.Labels = lab{"app": "x"}; o.Annotations = map[string]string{"a": "b"} },
	func(o *corev1.Service) {
		o.OwnerReferences = []metav1.OwnerReference{{APIVersion: "v1", Kind: "K", Name: "n", UID: "u"}}
	},
}

func mkPod(p pod) *corev1.Pod {
	o := &corev1.Pod{ObjectMeta: world.Meta(p.N, p.O, nil)}
	if p.L != nil {
		o.Labels = lab{}
		for k, v := range p.L {
			o.Labels[k] = v
		}
	}
	if p.Owner != "" {
		o.OwnerReferences = []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: p.Kind, Name: p.Owner, UID: "u"}}
	}
	return o
}

func mkSvc(s svc, obj bool, cond func(*corev1.Service)) interface{} {
	o := &corev1.Service{ObjectMeta: world.Meta(places[s.P][1], s.name(), nil), Spec: corev1.ServiceSpec{Selector: sels[s.S], ClusterIP: "10.0.0.1", Ports: []corev1.ServicePort{{Name: "http", Port: 80}}}}
	cond(o)
	if !obj {
		return o
	}
	o.APIVersion, o.Kind = "v1", "Service"
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	r := &watcher.ObjType{}
	if err := r.UnmarshalJSON(b); err != nil {
		panic(err)
	}
	return r
}

func subset(a, b lab) bool {
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// expect is the reference answer.
func expect(ps []pod, ss []svc, c, n, dep string) []string {
	var labels lab
	found := false
	for _, p := range ps {
		if p.C == c && p.N == n && p.Dep == dep {
			labels, found = p.L, true
		}
	}
	var r []string
	for _, s := range ss {
		if found && places[s.P] == [2]string{c, n} && len(sels[s.S]) > 0 && subset(sels[s.S], labels) {
			r = append(r, s.name())
		}
	}
	sort.Strings(r)
	return r
}

func ask(w *world.World, c, n, dep string, cond int) ([]string, error) {
	path := "/custom/v1/namespaces/" + url.PathEscape(n) + "/deployments/" + url.PathEscape(dep) + "/services"
	if c != "" {
		path = "/custom/v1/clusters/" + url.PathEscape(c) + "/namespaces/" + url.PathEscape(n) + "/deployments/" + url.PathEscape(dep) + "/services"
	} else {
		c = common.GetConfig().DefaultCluster
	}
	r := w.Get(path, nil)
	if r.Code != 200 {
		return nil, fmt.Errorf("GET %s: status %d: %.200s", path, r.Code, r.Body)
	}
	var l []corev1.Service
	if err := json.Unmarshal(r.Body, &l); err != nil || l == nil {
		return nil, fmt.Errorf("GET %s: not an array of services: %v: %.200s", path, err, r.Body)
	}
	var names []string
	for _, s := range l {
		names = append(names, s.Name)
		if s.Namespace != n || s.Annotations["ckube.doacloud.io/cluster"] != c {
			return nil, fmt.Errorf("GET %s: service %s is of cluster %q namespace %q", path, s.Name, s.Annotations["ckube.doacloud.io/cluster"], s.Namespace)
		}
		var i int
		if _, err := fmt.Sscanf(s.Name, "s%d", &i); err != nil || i < 0 || i >= len(sels) {
			return nil, fmt.Errorf("GET %s: unknown service: %+v", path, s)
		}
		ref := mkSvc(svc{0, i}, false, svcConds[cond]).(*corev1.Service)
		ref.Spec.Selector = nil
		got := s.Spec
		got.Selector = nil
		if fmt.Sprint(s.Spec.Selector) != fmt.Sprint(sels[i]) || fmt.Sprintf("%+v", got) != fmt.Sprintf("%+v", ref.Spec) {
			return nil, fmt.Errorf("GET %s: service is not the cached one: %+v", path, s)
		}
	}
	sort.Strings(names)
	return names, nil
}

func compare(x *mc.X, w *world.World, ps []pod, ss []svc, ds []string, cond int) error {
	sig := ""
	for _, pl := range places {
		for _, dep := range ds {
			want := expect(ps, ss, pl[0], pl[1], dep)
			froms := []string{pl[0]}
			if pl[0] == common.GetConfig().DefaultCluster {
				froms = append(froms, "")
			}
			for _, c := range froms {
				got, err := ask(w, c, pl[1], dep, cond)
				if err != nil {
					return err
				}
				x.Step(1)
				if strings.Join(got, ",") != strings.Join(want, ",") {
					return fmt.Errorf("cluster %q (of %v) namespace %s deployment %s: got services %v, want %v", c, pl[0], pl[1], dep, sel(got), sel(want))
				}
			}
			if len(want) > 0 {
				sig += fmt.Sprint(pl, dep, want)
			}
		}
	}
	x.State(sig)
	x.Outcome(sig)
	return nil
}

func sel(names []string) []string {
	r := []string{}
	for _, n := range names {
		var i int
		fmt.Sscanf(n, "s%d", &i)
		r = append(r, fmt.Sprintf("%s%v", n, sels[i]))
	}
	return r
}

func cfg(def string) common.Config {
	return common.Config{DefaultCluster: def, Proxies: []common.Proxy{
		world.Proxy("", "v1", "pods", "Pod", world.StdIndex()),
		world.Proxy("", "v1", "services", "Service", world.StdIndex()),
	}}
}

var def = "c1"
var pool = &sync.Pool{}

func setup(d string) func(*mc.Ctx) {
	return func(*mc.Ctx) {
		def = d
		c := cfg(def)
		common.InitConfig(&c)
		pool = &sync.Pool{New: func() any { return world.New(cfg(def), "c1", "c2", "admin@k") }}
		pool.Put(pool.New())
	}
}

func fresh() *world.World {
	w, _ := pool.Get().(*world.World)
	w.Reset(cfg(def))
	return w
}

func all() []svc {
	var r []svc
	for p := range places {
		for s := range sels {
			r = append(r, svc{p, s})
		}
	}
	return r
}

func exec(x *mc.X, t Case) error {
	w := fresh()
	defer pool.Put(w)
	var ps []pod
	for _, i := range t.Pods {
		ps = append(ps, pods[i])
	}
	ss := t.Svcs
	if ss == nil {
		ss = all()
	}
	for i, p := range ps {
		o := mkPod(p)
		if t.PV != nil {
			podConds[t.PV[i]](o)
		}
		if err := w.Store.OnResourceAdded(podsGVR, p.C, o); err != nil {
			return err
		}
	}
	for _, s := range ss {
		if err := w.Store.OnResourceAdded(svcGVR, places[s.P][0], mkSvc(s, t.Obj, svcConds[t.SV])); err != nil {
			return err
		}
	}
	if err := compare(x, w, ps, ss, deps, t.SV); err != nil {
		return err
	}
	if t.Del { // remove one of each, in turn
		for len(ps) > 0 {
			p := ps[0]
			ps = ps[1:]
			if err := w.Store.OnResourceDeleted(podsGVR, p.C, mkPod(p)); err != nil {
				return err
			}
			if err := compare(x, w, ps, ss, deps, t.SV); err != nil {
				return fmt.Errorf("after pod %s/%s/%s was deleted: %w", p.C, p.N, p.O, err)
			}
		}
	}
	return nil
}

// Absent: pods or services are not configured to be cached.
type Absent struct {
	Pods, Svcs bool
	Dep, C, N  string
}

func absent(x *mc.X, t Absent) error {
	cf := common.Config{DefaultCluster: "c1"}
	if t.Pods {
		cf.Proxies = append(cf.Proxies, world.Proxy("", "v1", "pods", "Pod", world.StdIndex()))
	}
	if t.Svcs {
		cf.Proxies = append(cf.Proxies, world.Proxy("", "v1", "services", "Service", world.StdIndex()))
	}
	cf.Proxies = append(cf.Proxies, world.Proxy("apps", "v1", "deployments", "Deployment", world.StdIndex()))
	w := world.New(cf, "c1", "c2")
	defer common.InitConfig(ptr(cfg("c1")))
	if t.Pods {
		_ = w.Store.OnResourceAdded(podsGVR, "c1", mkPod(pods[0]))
	}
	if t.Svcs {
		_ = w.Store.OnResourceAdded(svcGVR, "c1", mkSvc(svc{0, 2}, false, svcConds[0]))
	}
	path := "/custom/v1/namespaces/" + t.N + "/deployments/" + t.Dep + "/services"
	if t.C != "" {
		path = "/custom/v1/clusters/" + t.C + "/namespaces/" + t.N + "/deployments/" + t.Dep + "/services"
	}
	r := w.Get(path, nil)
	x.Step(1)
	x.State(mc.J(t))
	x.Outcome(fmt.Sprint(r.Code))
	var l []corev1.Service
	if r.Code == 200 {
		if err := json.Unmarshal(r.Body, &l); err != nil {
			return fmt.Errorf("GET %s: %v: %.200s", path, err, r.Body)
		}
	}
	if r.Code != 200 {
		var st metav1.Status
		if err := json.Unmarshal(r.Body, &st); err != nil || r.Code >= 500 || int(st.Code) != r.Code {
			return fmt.Errorf("GET %s with pods cached: %v, services cached: %v: status %d %.200s", path, t.Pods, t.Svcs, r.Code, r.Body)
		}
	}
	if len(l) > 0 {
		return fmt.Errorf("GET %s with pods cached: %v, services cached: %v gives %d services", path, t.Pods, t.Svcs, len(l))
	}
	return nil
}

// Scale: N deployments with P pods each and S services, labels and selectors of W members.
type Scale struct{ N, P, S, W int }

func scale(x *mc.X, t Scale) error {
	w := fresh()
	defer pool.Put(w)
	for d := 0; d < t.N; d++ {
		for p := 0; p < t.P; p++ {
			l := lab{"app": fmt.Sprintf("a%d", d)}
			for k := 0; k < t.W; k++ {
				l[fmt.Sprintf("k%d", k)] = fmt.Sprintf("v%d", d%3)
			}
			o := mkPod(rs("c1", "n1", fmt.Sprintf("d%d", d), fmt.Sprintf("h%d", p%2), fmt.Sprintf("p%d", p), l))
			if err := w.Store.OnResourceAdded(podsGVR, "c1", o); err != nil {
				return err
			}
		}
	}
	type sv struct {
		app int
		ok  bool
	}
	svs := map[string]sv{}
	for i := 0; i < t.S; i++ {
		app := i * 7 % (t.N + 1)
		l := lab{"app": fmt.Sprintf("a%d", app)}
		for k := 0; k < t.W; k++ {
			l[fmt.Sprintf("k%d", k)] = fmt.Sprintf("v%d", app%3)
		}
		ok := true
		if i%4 == 3 && t.W > 0 { // one member is different
			l[fmt.Sprintf("k%d", i%t.W)] = "other"
			ok = false
		}
		n := fmt.Sprintf("s%d", i)
		svs[n] = sv{app, ok}
		if err := w.Store.OnResourceAdded(svcGVR, "c1", &corev1.Service{ObjectMeta: world.Meta("n1", n, nil), Spec: corev1.ServiceSpec{Selector: l}}); err != nil {
			return err
		}
	}
	for d := 0; d <= t.N; d++ {
		if d > 4 && d < t.N-3 && d%17 != 0 {
			continue
		}
		var want []string
		for n, v := range svs {
			if d < t.N && v.app == d && v.ok {
				want = append(want, n)
			}
		}
		sort.Strings(want)
		r := w.Get(fmt.Sprintf("/custom/v1/namespaces/n1/deployments/d%d/services", d), nil)
		x.Step(1)
		var l []corev1.Service
		if err := json.Unmarshal(r.Body, &l); err != nil || r.Code != 200 {
			return fmt.Errorf("status %d, %v: %.200s", r.Code, err, r.Body)
		}
		var got []string
		for _, s := range l {
			got = append(got, s.Name)
		}
		sort.Strings(got)
		if strings.Join(got, ",") != strings.Join(want, ",") {
			return fmt.Errorf("deployment d%d: got services %v, want %v", d, got, want)
		}
		x.State(fmt.Sprint(t, d, want))
		x.Outcome(fmt.Sprint(len(want)))
	}
	return nil
}

// Label is a label of a deployment's pods; services select it in different ways.
type Label struct{ K, V string }

var labelKeys = []string{"app", "k8s-app", "app.kubernetes.io/name", "app.kubernetes.io/instance", "app.kubernetes.io/component", "app.kubernetes.io/version", "app.kubernetes.io/managed-by", "pod-template-hash", "controller-revision-hash", "pod-template-generation", "statefulset.kubernetes.io/pod-name", "version", "istio.io/rev", "security.istio.io/tlsMode", "service.istio.io/canonical-name", "helm.sh/chart", "heritage", "release", "env", "name", "kubernetes.io/name", "cluster", "namespace", "a", "A", "a_b", "a-b", "a.b", "0", strings.Repeat("l", 63), strings.Repeat("d", 253) + "/" + strings.Repeat("n", 63), "dce.daocloud.io/app", "ckube.daocloud.io/query"}
var labelVals = []string{"", "a", "A", "web", "true", "1", "01", "a.b", "a_b", "a-b", strings.Repeat("v", 63), "v1.2.3", "null"}

func label(x *mc.X, t Label) error {
	w := fresh()
	defer pool.Put(w)
	for _, cl := range []string{"c1", "c2"} {
		v := t.V
		if cl == "c2" {
			v = "else"
		}
		for _, p := range []string{"x", "y"} {
			o := mkPod(rs(cl, "n1", "web", "5d9", p, lab{t.K: v, "tier": "f"}))
			if err := w.Store.OnResourceAdded(podsGVR, cl, o); err != nil {
				return err
			}
		}
	}
	services := map[string]lab{
		"same": {t.K: t.V}, "both": {t.K: t.V, "tier": "f"}, "tier": {"tier": "f"}, // selected
		"else": {t.K: "else"}, "longer": {t.K: t.V + "x"}, "more": {t.K: t.V, "x": "y"}, "wrongtier": {t.K: t.V, "tier": "b"}, "otherkey": {t.K + "x": t.V}, "empty": {}, "nil": nil,
	}
	if t.V != "" {
		services["blank"], services["shorter"] = lab{t.K: ""}, lab{t.K: t.V[:len(t.V)-1]}
	}
	if u := strings.ToUpper(t.V); u != t.V {
		services["upper"] = lab{t.K: u}
	}
	if u := strings.ToUpper(t.K); u != t.K {
		services["upperkey"] = lab{u: t.V}
	}
	for n, s := range services {
		for _, cl := range []string{"c1", "c2"} {
			if err := w.Store.OnResourceAdded(svcGVR, cl, &corev1.Service{ObjectMeta: world.Meta("n1", n, nil), Spec: corev1.ServiceSpec{Selector: s}}); err != nil {
				return err
			}
		}
	}
	for i := 0; i < 2; i++ { // asking changes nothing
		for _, cl := range []string{"c1", "c2"} {
			want := "both,same,tier"
			if cl == "c2" {
				if want = "else,tier"; t.V == "els" {
					want = "else,longer,tier"
				}
			}
			r := w.Get("/custom/v1/clusters/"+cl+"/namespaces/n1/deployments/web/services", nil)
			x.Step(1)
			var l []corev1.Service
			if err := json.Unmarshal(r.Body, &l); err != nil || r.Code != 200 {
				return fmt.Errorf("status %d, %v: %.200s", r.Code, err, r.Body)
			}
			var got []string
			for _, s := range l {
				got = append(got, s.Name)
			}
			sort.Strings(got)
			if strings.Join(got, ",") != want {
				return fmt.Errorf("pods labelled %s=%s: cluster %s has services %v, want %s", t.K, t.V, cl, got, want)
			}
			x.State(mc.J(t) + cl)
		}
	}
	return nil
}

func ptr(c common.Config) *common.Config { return &c }

// Hist is a history of notifications.
type Hist struct{ Ops []string }

var hops = []string{
	"+web a", "+web b", "-web a", "-web b", "+other web", "-other web", "+api web", // pods: deployment and label value; the pods of one deployment change together
	"+svc web", "-svc web", "*svc web b", "*svc web a", "+svc c2", "clean pods c1", "clean services c1", "clean pods c2",
}

// model of a history: labels of the deployments' pods, services.
func hist(x *mc.X, t Hist) error {
	w := fresh()
	defer pool.Put(w)
	type pk struct{ c, dep string }
	live := map[pk]string{} // the label value of the deployment's only pod
	serv := map[string]string{}
	gp := func(dep, v string) *corev1.Pod { return mkPod(rs("", "n1", dep, "1", "p", lab{"app": v})) }
	gs := func(v string) *corev1.Service {
		return &corev1.Service{ObjectMeta: world.Meta("n1", "svc", nil), Spec: corev1.ServiceSpec{Selector: lab{"app": v}}}
	}
	for i, op := range t.Ops {
		f := strings.Fields(op)
		switch {
		case f[0] == "clean":
			g := podsGVR
			if f[1] == "services" {
				g = svcGVR
				delete(serv, f[2])
			} else {
				for k := range live {
					if k.c == f[2] {
						delete(live, k)
					}
				}
			}
			if err := guardClean(w, g.Resource, f[2]); err != nil {
				return err
			}
		case op == "+svc web" || op == "*svc web a":
			serv["c1"] = "a"
			if op[0] == '+' {
				_ = w.Store.OnResourceAdded(svcGVR, "c1", gs("a"))
			} else {
				_ = w.Store.OnResourceModified(svcGVR, "c1", gs("a"))
			}
		case op == "*svc web b":
			serv["c1"] = "b"
			_ = w.Store.OnResourceModified(svcGVR, "c1", gs("b"))
		case op == "-svc web":
			delete(serv, "c1")
			_ = w.Store.OnResourceDeleted(svcGVR, "c1", gs("b"))
		case op == "+svc c2":
			serv["c2"] = "a"
			_ = w.Store.OnResourceAdded(svcGVR, "c2", gs("a"))
		case op == "+other web":
			live[pk{"c2", "web"}] = "a"
			_ = w.Store.OnResourceAdded(podsGVR, "c2", gp("web", "a"))
		case op == "-other web":
			delete(live, pk{"c2", "web"})
			_ = w.Store.OnResourceDeleted(podsGVR, "c2", gp("web", "a"))
		case op == "+api web":
			live[pk{"c1", "web-api"}] = "a"
			_ = w.Store.OnResourceAdded(podsGVR, "c1", gp("web-api", "a"))
		case f[0] == "+web":
			_, had := live[pk{"c1", "web"}]
			live[pk{"c1", "web"}] = f[1]
			if had {
				_ = w.Store.OnResourceModified(podsGVR, "c1", gp("web", f[1]))
			} else {
				_ = w.Store.OnResourceAdded(podsGVR, "c1", gp("web", f[1]))
			}
		case f[0] == "-web":
			delete(live, pk{"c1", "web"})
			_ = w.Store.OnResourceDeleted(podsGVR, "c1", gp("web", f[1]))
		}
		for _, c := range []string{"c1", "c2"} {
			for _, dep := range []string{"web", "web-api"} {
				want := "0"
				if v, ok := live[pk{c, dep}]; ok && serv[c] == v {
					want = "1"
				}
				r := w.Get("/custom/v1/clusters/"+c+"/namespaces/n1/deployments/"+dep+"/services", nil)
				var l []corev1.Service
				if err := json.Unmarshal(r.Body, &l); err != nil || r.Code != 200 {
					return fmt.Errorf("status %d, %v: %.200s", r.Code, err, r.Body)
				}
				x.Step(1)
				if fmt.Sprint(len(l)) != want {
					return fmt.Errorf("after %q (step %d): deployment %s of %s has services %v, want %s of them", op, i, dep, c, string(r.Body), want)
				}
			}
		}
		x.State(fmt.Sprint(live, serv))
	}
	return nil
}

func guardClean(w *world.World, res, cluster string) error {
	g := podsGVR
	if res == "services" {
		g = svcGVR
	}
	_ = w.Store.Clean(g, cluster) // an unknown cluster is an error without effect
	return nil
}

func main() {
	pops := func(c *mc.Ctx, n int, emit func([]int) bool) bool {
		var rec func(from, left int, s []int) bool
		rec = func(from, left int, s []int) bool {
			if left == 0 {
				return emit(append([]int{}, s...))
			}
			for i := from; i < len(pods); i++ {
				if !rec(i+1, left-1, append(s, i)) {
					return false
				}
			}
			return true
		}
		for size := 0; size <= n; size++ {
			if !rec(0, size, nil) {
				return false
			}
		}
		return true
	}
	everything := make([]int, len(pods))
	for i := range everything {
		everything[i] = i
	}
	mc.Main(mc.Def{ID: "C19",
		Oracle: "set model: services of the addressed cluster and namespace with a non-empty selector contained in the labels of the pods whose replica set belongs to the deployment",
		Assume: []string{"the pods of one deployment bear the same labels (its pod template's)", "a replica set is named <deployment>-<hash>, the hash without a dash"},
		Quick:  100 * time.Second, Long: 780 * time.Second,
		Families: []mc.Family{
			mc.Cases("pods", mc.Opts{Bound: fmt.Sprintf("all sets of up to 2 (thorough 4) of %d pods, with %d selectors in %d places; %d deployments asked for in every place", len(pods), len(sels), len(places), len(deps)), Setup: setup("c1")},
				func(c *mc.Ctx, emit func(Case) bool) {
					pops(c, mc.Pick(c, 2, 4), func(s []int) bool { return emit(Case{Pods: s}) })
				}, exec),
			mc.Cases("conditions", mc.Opts{Bound: fmt.Sprintf("one pod in each of %d conditions (being deleted, phases, readiness, ...) together with another in each; services in each of %d conditions", len(podConds), len(svcConds)), Setup: setup("c1")},
				func(c *mc.Ctx, emit func(Case) bool) {
					var few []svc
					for _, i := range []int{1, 2, 3, 4, 5, 9, 12} {
						few = append(few, svc{0, i}, svc{2, i})
					}
					for _, obj := range []bool{false, true} {
						for sv := range svcConds {
							for a := range podConds {
								if !emit(Case{Pods: []int{0}, Svcs: few, PV: []int{a}, SV: sv, Obj: obj}) {
									return
								}
								if sv > 0 && !c.Thorough() {
									continue
								}
								for b := range podConds {
									for _, two := range [][]int{{0, 1}, {0, 2}, {0, 5}} {
										if !emit(Case{Pods: two, Svcs: few, PV: []int{a, b}, SV: sv, Obj: obj}) {
											return
										}
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("custom-services", mc.Opts{Bound: "the same with services decoded as custom objects, sets of up to 1 (thorough 3) pods, and all pods", Setup: setup("c1")},
				func(c *mc.Ctx, emit func(Case) bool) {
					if pops(c, mc.Pick(c, 1, 3), func(s []int) bool { return emit(Case{Pods: s, Obj: true}) }) {
						emit(Case{Pods: everything, Obj: true})
					}
				}, exec),
			mc.Cases("services", mc.Opts{Bound: "all pods cached, every single service, every pair (thorough: triple) of services of one namespace; pods deleted one by one", Setup: setup("c1")},
				func(c *mc.Ctx, emit func(Case) bool) {
					if !emit(Case{Pods: everything, Del: true}) {
						return
					}
					a := all()
					for _, s := range a {
						if !emit(Case{Pods: everything, Svcs: []svc{s}}) {
							return
						}
					}
					n := len(sels)
					for i := 0; i < n; i++ {
						for j := i + 1; j < n; j++ {
							if !emit(Case{Pods: everything, Svcs: []svc{{0, i}, {0, j}}}) {
								return
							}
						}
					}
					if c.Thorough() {
						for i := 0; i < n; i++ {
							for j := i + 1; j < n; j++ {
								for k := j + 1; k < n; k++ {
									if !emit(Case{Pods: everything, Svcs: []svc{{0, i}, {0, j}, {2, k}}}) {
										return
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("labels", mc.Opts{Bound: fmt.Sprintf("%d label keys x %d values, 14 selectors, in two clusters, asked twice", len(labelKeys), len(labelVals)), Setup: setup("c1")},
				func(c *mc.Ctx, emit func(Label) bool) {
					for _, k := range labelKeys {
						for _, v := range labelVals {
							if !emit(Label{k, v}) {
								return
							}
						}
					}
				}, label),
			mc.Cases("scale", mc.Opts{Bound: "up to 650 deployments, 1025 pods of one, 1025 services, labels and selectors of up to 70 members", Setup: setup("c1")},
				func(c *mc.Ctx, emit func(Scale) bool) {
					for _, n := range []int{1, 2, 9, 10, 11, 17, 33, 65, 101, 129, 257, 650} {
						if !emit(Scale{n, 2, n * 2, 1}) {
							return
						}
					}
					for _, n := range []int{3, 9, 10, 11, 17, 33, 65, 100, 101, 129, 257, 501, 1025} {
						if !emit(Scale{2, n, 6, 1}) || !emit(Scale{2, 1, n, 2}) {
							return
						}
					}
					for n := 0; n <= 70; n++ {
						if !emit(Scale{3, 1, 40, n}) {
							return
						}
					}
				}, scale),
			mc.Cases("odd-default", mc.Opts{Bound: "the default cluster's name is no label value: sets of up to 1 pod, and all pods", Setup: setup("admin@k")},
				func(c *mc.Ctx, emit func(Case) bool) {
					if pops(c, mc.Pick(c, 1, 2), func(s []int) bool { return emit(Case{Pods: s}) }) {
						emit(Case{Pods: everything, Del: true})
					}
				}, exec),
			mc.Cases("not-cached", mc.Opts{Bound: "pods, services or both are not cached; 2 deployments, clusters and namespaces: an orderly answer without services", Workers: 1},
				func(c *mc.Ctx, emit func(Absent) bool) {
					for _, m := range []Absent{{}, {Pods: true}, {Svcs: true}} {
						for _, m.Dep = range []string{"web", "nope"} {
							for _, m.C = range []string{"", "c1", "c2"} {
								for _, m.N = range []string{"n1", "n2"} {
									if !emit(m) {
										return
									}
								}
							}
						}
					}
				}, absent),
			mc.Cases("histories", mc.Opts{Bound: fmt.Sprintf("all words of up to 3 (thorough 4) of %d notifications", len(hops)), Setup: setup("c1")},
				func(c *mc.Ctx, emit func(Hist) bool) {
					n := mc.Pick(c, 3, 4)
					for l := 1; l <= n; l++ {
						if !mc.Words(len(hops), l, func(w []int) bool {
							var o []string
							for _, i := range w {
								o = append(o, hops[i])
							}
							return emit(Hist{o})
						}) {
							return
						}
					}
				}, hist),
		},
	})
}
