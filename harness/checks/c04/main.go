// C04: served objects are the objects the cluster reported.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	appsv1 "k8s.io/api/apps/v1"
	autoscalingv1 "k8s.io/api/autoscaling/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	networkingv1 "k8s.io/api/networking/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/util/intstr"
	"k8s.io/client-go/rest"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

// builtin types with a way to make one.
var builtins = []struct {
	g, v, r, kind string
	namespaced    bool
	typ           reflect.Type
}{
	{"", "v1", "pods", "Pod", true, reflect.TypeOf(corev1.Pod{})},
	{"apps", "v1", "deployments", "Deployment", true, reflect.TypeOf(appsv1.Deployment{})},
	{"", "v1", "configmaps", "ConfigMap", true, reflect.TypeOf(corev1.ConfigMap{})},
	{"", "v1", "secrets", "Secret", true, reflect.TypeOf(corev1.Secret{})},
	{"", "v1", "services", "Service", true, reflect.TypeOf(corev1.Service{})},
	{"", "v1", "nodes", "Node", false, reflect.TypeOf(corev1.Node{})},
	{"", "v1", "namespaces", "Namespace", false, reflect.TypeOf(corev1.Namespace{})},
	{"", "v1", "events", "Event", true, reflect.TypeOf(corev1.Event{})},
	{"", "v1", "persistentvolumes", "PersistentVolume", false, reflect.TypeOf(corev1.PersistentVolume{})},
	{"", "v1", "persistentvolumeclaims", "PersistentVolumeClaim", true, reflect.TypeOf(corev1.PersistentVolumeClaim{})},
	{"apps", "v1", "statefulsets", "StatefulSet", true, reflect.TypeOf(appsv1.StatefulSet{})},
	{"apps", "v1", "daemonsets", "DaemonSet", true, reflect.TypeOf(appsv1.DaemonSet{})},
	{"apps", "v1", "replicasets", "ReplicaSet", true, reflect.TypeOf(appsv1.ReplicaSet{})},
	{"batch", "v1", "jobs", "Job", true, reflect.TypeOf(batchv1.Job{})},
	{"batch", "v1", "cronjobs", "CronJob", true, reflect.TypeOf(batchv1.CronJob{})},
	{"networking.k8s.io", "v1", "ingresses", "Ingress", true, reflect.TypeOf(networkingv1.Ingress{})},
	{"networking.k8s.io", "v1", "networkpolicies", "NetworkPolicy", true, reflect.TypeOf(networkingv1.NetworkPolicy{})},
	{"rbac.authorization.k8s.io", "v1", "clusterroles", "ClusterRole", false, reflect.TypeOf(rbacv1.ClusterRole{})},
	{"rbac.authorization.k8s.io", "v1", "rolebindings", "RoleBinding", true, reflect.TypeOf(rbacv1.RoleBinding{})},
	{"storage.k8s.io", "v1", "storageclasses", "StorageClass", false, reflect.TypeOf(storagev1.StorageClass{})},
	{"autoscaling", "v1", "horizontalpodautoscalers", "HorizontalPodAutoscaler", true, reflect.TypeOf(autoscalingv1.HorizontalPodAutoscaler{})},
}

// customs are further custom types: T is -2 minus the index.
var customs = []struct{ g, v, r, kind string }{
	{"x.io", "v1", "accesslists", "AccessList"},
	{"x.io", "v1", "lists", "List"},
	{"serving.knative.dev", "v1", "services", "Service"}, // the kind of a built-in type
	{"x.io", "v1beta1", "pods", "Pod"},
	{"apps", "v1", "foos", "Foo"}, // a group of built-in types
	{"batch", "v2alpha9", "jobs", "Job"},
	{"x.io", "v1", "statuses", "Status"},
	{"x.io", "v1", "w", "W"},
	{"x-y.z.example.com", "v10beta22", "listlists", "ListListItem"},
}

// Case: documents reported one after another for the same object, of a type.
type Case struct {
	T    int // index into builtins; -1: the custom type
	Docs []string
	Mod  bool `json:",omitempty"` // reported as MODIFIED
}

func (t Case) gvr() (gvr store.GroupVersionResource, kind string) {
	if t.T < -1 {
		k := customs[-2-t.T]
		return world.GVR(k.g, k.v, k.r), k.kind
	}
	if t.T < 0 {
		return gen.Widgets, "Widget"
	}
	b := builtins[t.T]
	return world.GVR(b.g, b.v, b.r), b.kind
}

func apiVersion(g store.GroupVersionResource) string {
	if g.Group == "" {
		return g.Version
	}
	return g.Group + "/" + g.Version
}

func listPath(g store.GroupVersionResource, ns string) string {
	p := "/apis/" + g.Group + "/" + g.Version
	if g.Group == "" {
		p = "/api/" + g.Version
	}
	if ns != "" {
		p += "/namespaces/" + ns
	}
	return p + "/" + g.Resource
}

// feed is the transport of the watched cluster.
type feed struct{ w *io.PipeWriter }

func (f *feed) RoundTrip(r *http.Request) (*http.Response, error) {
	pr, pw := io.Pipe()
	f.w = pw
	go func() { <-r.Context().Done(); _ = pw.CloseWithError(r.Context().Err()) }()
	return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}}, Body: pr, ContentLength: -1, Request: r}, nil
}

func decode(b []byte) (map[string]interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	m := map[string]interface{}{}
	err := d.Decode(&m)
	return m, err
}

// same compares JSON values, numbers by their exact value.
func same(a, b interface{}, path string) error {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok {
			return fmt.Errorf("%s: reported %v, served %v", path, a, b)
		}
		for k := range x {
			if _, ok := y[k]; !ok {
				return fmt.Errorf("%s.%s: reported %v, not served", path, k, x[k])
			}
			if err := same(x[k], y[k], path+"."+k); err != nil {
				return err
			}
		}
		for k := range y {
			if _, ok := x[k]; !ok {
				return fmt.Errorf("%s.%s: not reported, served %v", path, k, y[k])
			}
		}
		return nil
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return fmt.Errorf("%s: reported %v, served %v", path, a, b)
		}
		for i := range x {
			if err := same(x[i], y[i], fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case json.Number:
		y, ok := b.(json.Number)
		if ok && x != y {
			p, ok1 := new(big.Rat).SetString(string(x))
			q, ok2 := new(big.Rat).SetString(string(y))
			ok = ok1 && ok2 && p.Cmp(q) == 0
		}
		if !ok {
			return fmt.Errorf("%s: reported %v, served %v", path, a, b)
		}
		return nil
	}
	if a != b {
		return fmt.Errorf("%s: reported %q, served %q", path, a, b)
	}
	return nil
}

// faithful compares a served object with the reported document.
func faithful(doc string, served []byte, cluster string) error {
	want, err := decode([]byte(doc))
	if err != nil {
		return fmt.Errorf("HARNESS: %v: %s", err, doc)
	}
	got, err := decode(served)
	if err != nil {
		return fmt.Errorf("served %.300s: %v", served, err)
	}
	meta, _ := got["metadata"].(map[string]interface{})
	wmeta, _ := want["metadata"].(map[string]interface{})
	if meta == nil || wmeta == nil {
		return fmt.Errorf("no metadata served: %.300s", served)
	}
	an, _ := meta["annotations"].(map[string]interface{})
	if an[constants.DSMClusterAnno] != cluster || an[constants.IndexAnno] == nil {
		return fmt.Errorf("bookkeeping annotations are %v", an)
	}
	var idx map[string]string
	if s, ok := an[constants.IndexAnno].(string); !ok || json.Unmarshal([]byte(s), &idx) != nil || idx["cluster"] != cluster || idx["name"] != meta["name"] {
		return fmt.Errorf("index annotation is %v", an[constants.IndexAnno])
	}
	delete(an, constants.DSMClusterAnno)
	delete(an, constants.IndexAnno)
	if wa, ok := wmeta["annotations"].(map[string]interface{}); ok {
		delete(wa, constants.DSMClusterAnno)
		delete(wa, constants.IndexAnno)
		if len(wa) == 0 && len(an) == 0 {
			delete(wmeta, "annotations")
		}
	}
	if len(an) == 0 && wmeta["annotations"] == nil {
		delete(meta, "annotations")
	}
	for _, m := range []map[string]interface{}{meta, wmeta} { // Kubernetes' own way of writing "none"
		if v, ok := m["creationTimestamp"]; ok && v == nil {
			delete(m, "creationTimestamp")
		}
	}
	return same(want, got, "")
}

func conf(types ...int) common.Config {
	c := common.Config{DefaultCluster: "c1"}
	for _, t := range types {
		g, k := Case{T: t}.gvr()
		c.Proxies = append(c.Proxies, world.Proxy(g.Group, g.Version, g.Resource, k, map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "labels": "{.metadata.labels}", "x": "{.spec.x}", "t": `{{ .metadata.name | quote }}`}))
	}
	return c
}

// live is a watched cluster with a server.
type live struct {
	w     *world.World
	watch watcher.Watcher
	f     *feed
}

func start(types ...int) (*live, error) {
	cfg := conf(types...)
	common.InitConfig(&cfg)
	s := memory.NewMemoryStore(world.IndexConf(cfg))
	l := &live{w: &world.World{Store: s}, f: &feed{}}
	l.w.Serve()
	g, _ := Case{T: types[0]}.gvr()
	l.watch = watcher.NewWatcher(map[string]rest.Config{"c1": {Host: "http://c1", Transport: l.f}}, []store.GroupVersionResource{g}, s)
	if err := l.watch.Start(); err != nil {
		return nil, err
	}
	synctest.Wait()
	if l.f.w == nil {
		return nil, fmt.Errorf("nobody connects")
	}
	return l, nil
}

func (l *live) stop() {
	_ = l.watch.Stop()
	_ = l.f.w.Close()
	time.Sleep(2 * time.Minute)
	synctest.Wait()
}

func (l *live) report(typ, doc string) {
	_, _ = io.Copy(l.f.w, strings.NewReader(`{"type":"`+typ+`","object":`+doc+"}\n"))
	synctest.Wait()
}

func in(f func() error) (err error) {
	synctest.Test(theT, func(*testing.T) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		err = f()
	})
	return err
}

var theT *testing.T

func exec(l *mc.Local, t Case) error { return in(func() error { return serve(l, t) }) }

func serve(l *mc.Local, t Case) error {
	lv, err := start(t.T)
	if err != nil {
		return err
	}
	defer lv.stop()
	g, kind := t.gvr()
	for i, doc := range t.Docs {
		typ := "ADDED"
		if t.Mod || i > 0 {
			typ = "MODIFIED"
		}
		lv.report(typ, doc)
		m, err := decode([]byte(doc))
		if err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		meta := m["metadata"].(map[string]interface{})
		name := meta["name"].(string)
		ns, _ := meta["namespace"].(string)
		one := lv.w.Get(listPath(g, ns)+"/"+url.PathEscape(name), nil)
		if one.Code != 200 {
			return fmt.Errorf("%s reported %.300s: get has status %d %.200s", typ, doc, one.Code, one.Body)
		}
		if err := faithful(doc, one.Body, "c1"); err != nil {
			return fmt.Errorf("reported %.400s\n  get: %v", doc, err)
		}
		list := lv.w.Get(listPath(g, ""), nil)
		lb, items, err := world.ParseList(list)
		if err != nil || len(items) != 1 || lb.Kind != kind+"List" {
			return fmt.Errorf("reported %.400s\n  list: %v, %d items: %.300s", doc, err, len(items), list.Body)
		}
		if err := faithful(doc, lb.Items[0], "c1"); err != nil {
			return fmt.Errorf("reported %.400s\n  list: %v", doc, err)
		}
		// asking again
		if again := lv.w.Get(listPath(g, ns)+"/"+url.PathEscape(name), nil); !bytes.Equal(again.Body, one.Body) {
			return fmt.Errorf("reported %.400s\n  asked again: %.400s, before: %.400s", doc, again.Body, one.Body)
		}
		l.Step(3)
		l.State(doc)
	}
	return nil
}

// Reads is a sequence of reads of a fixed content.
type Reads struct {
	T   int
	Ops []int
}

type read struct {
	path, ns, sel string
	q             page.Paginate
	hdr           []string
}

var reads = []read{
	{}, {ns: "n1"}, {path: "/a"}, {q: page.Paginate{Sort: "name desc"}}, {q: page.Paginate{Sort: "x!int, name desc", Page: 1, PageSize: 2}}, {q: page.Paginate{Search: "name=a"}}, {q: page.Paginate{Page: 2, PageSize: 1}}, {sel: "l=1"}, {sel: "l", q: page.Paginate{Sort: "name desc", Page: 1, PageSize: 1}}, {hdr: []string{"Accept", "application/json;as=Table"}}, {q: page.Paginate{Sort: "nosuch"}}, {path: "/absent"}, {q: page.Paginate{Search: "__ckube_as__:cluster in (c1, c2)"}}, {q: page.Paginate{Search: "!zz;x!=7"}},
}

var content = []string{
	`{"apiVersion":"%s","kind":"%s","metadata":{"name":"b","namespace":"n1","labels":{"l":"1"},"resourceVersion":"1","annotations":{"kubectl.kubernetes.io/last-applied-configuration":"` + strings.Repeat("{long}", 200) + `","deployment.kubernetes.io/revision":"3","":"` + strings.Repeat("z", 70) + `"},"finalizers":["f1","f2"],"managedFields":[{"manager":"kubectl","operation":"Update","apiVersion":"v1","time":"2024-01-02T03:04:05Z","fieldsType":"FieldsV1","fieldsV1":{"f:spec":{}}}]},"spec":{"x":2}}`,
	`{"apiVersion":"%s","kind":"%s","metadata":{"name":"a","namespace":"n1","labels":{"l":"2"},"resourceVersion":"2"},"spec":{"x":10}}`,
	`{"apiVersion":"%s","kind":"%s","metadata":{"name":"c","namespace":"n2","resourceVersion":"3"},"spec":{"x":1}}`,
}

func execReads(l *mc.Local, t Reads) error {
	return in(func() error {
		lv, err := start(t.T)
		if err != nil {
			return err
		}
		defer lv.stop()
		g, kind := Case{T: t.T}.gvr()
		for _, d := range content {
			d = fmt.Sprintf(d, apiVersion(g), kind)
			if t.T >= 0 { // a pod has no such field
				d = strings.ReplaceAll(d, `"x":`, `"priority":`)
			}
			lv.report("ADDED", d)
		}
		do := func(i int) string {
			r := reads[i]
			ns := r.ns
			if r.path != "" {
				ns = "n1"
			}
			sel := r.sel
			if e := gen.Encode(r.q); e != "" {
				if sel != "" {
					sel += ","
				}
				sel += e
			}
			var q url.Values
			if sel != "" {
				q = url.Values{"labelSelector": {sel}}
			}
			a := lv.w.Do(world.Req("GET", listPath(g, ns)+r.path, q, "", r.hdr...))
			l.Step(1)
			return fmt.Sprintf("%d %s", a.Code, a.Body)
		}
		if len(t.Ops) == 1 && t.Ops[0] < 0 {
			i := -1 - t.Ops[0]
			fresh[t.T][i] = do(i)
			return nil
		}
		first := map[int]string{}
		for _, i := range t.Ops {
			got := do(i)
			if was, ok := first[i]; ok && got != was {
				return fmt.Errorf("read %s is answered %.500s, at first %.500s", mc.J(reads[i]), got, was)
			}
			first[i] = got
		}
		// whatever was read before, every read has the answer a fresh server gives
		for i := range reads {
			got := do(i)
			if want := fresh[t.T][i]; got != want {
				return fmt.Errorf("after reads %v: %s is answered %.500s, by a fresh server %.500s", t.Ops, mc.J(reads[i]), got, want)
			}
		}
		l.Outcome(fmt.Sprint(len(t.Ops)))
		return nil
	})
}

var fresh = map[int]map[int]string{}

// readsWorker runs in a worker that may be new: it learns the answers of a fresh server first.
func readsWorker(l *mc.Local, t Reads) error {
	if fresh[t.T] == nil {
		fresh[t.T] = map[int]string{}
		for i := range reads { // every one from a server of its own
			if err := execReads(l, Reads{T: t.T, Ops: []int{-1 - i}}); err != nil {
				return err
			}
		}
	}
	return execReads(l, t)
}

// ---- documents ----

// values placed in custom objects.
var values = func() []string {
	v := []string{`0`, `-0`, `1`, `-1`, `1.0`, `1.5`, `0.1`, `1e3`, `1E+3`, `1e-7`, `100000000000000000000000`, `9007199254740993`, `9223372036854775807`, `9223372036854775808`, `-9223372036854775808`, `18446744073709551615`, `12345678901234567890.12345678901234567890`, `1e21`, `1234567890123`, `16777217`, `2.50`,
		`null`, `true`, `false`, `[]`, `{}`, `""`, `[[]]`, `[null]`, `{"a":null}`, `{"a":{}}`, `[{}]`, `{"":""}`, `[1,"1",1.0,null,true,{"a":[]}]`,
		`" "`, `"\u0000"`, `"\n\r\t"`, `"\"\\/"`, `"<b>&amp;</b>"`, `"\u2028\u2029"`, `"名字"`, `"\ud83d\ude00"`, `"e\u0301"`, `"\u00e9"`, `"1"`, `"true"`, `"null"`, `"{}"`, `"{\"a\":1}"`, `"%s%d"`, `"{{ .x }}"`, `"2020-01-02T03:04:05.123456789Z"`, `"` + strings.Repeat("x", 70000) + `"`, `"\u007f\u0080\u00ff"`, `"\ufeff"`, `"\uffff"`,
		`{"apiVersion":"v1","kind":"Other","metadata":{"name":"inner","namespace":"q"}}`, `{"metadata":{"creationTimestamp":null}}`, `{"Data":1,"data":2,"DATA":3}`, `{"items":[1]}`, `{"a.b/c":1,"a b":2,"名":3,"\"":4,"\\":5,"<":6}`, `{"type":"ADDED","object":{}}`}
	deep := `1`
	for i := 0; i < 60; i++ {
		deep = `{"d":[` + deep + `]}`
	}
	return append(v, deep)
}()

// places for a value in a custom object.
var places = []string{
	`"spec":{"x":%s}`, `"spec":%s`, `"x":%s`, `"spec":{"a":{"b":[{"c":{"x":%s}}]}}`, `"status":{"list":[1,%s,2]}`, `"data":%s`, `"Data":%s`, `"spec":{"x":%[1]s,"y":%[1]s},"status":%[1]s`, `"typeMeta":%s`, `"ObjectMeta":%s`, `"items":%s`, `"":%s`, `"zz":1,"aa":%s`,
}

func custom(extra, meta string) string {
	if extra != "" {
		extra = "," + extra
	}
	if meta != "" {
		meta = "," + meta
	}
	return `{"apiVersion":"x.io/v1","kind":"Widget","metadata":{"name":"w1","namespace":"n1"` + meta + `}` + extra + `}`
}

// metas are metadata members as API servers write them.
var metas = []string{
	``, `"uid":"7b1e-1"`, `"resourceVersion":"9007199254740993"`, `"generation":9007199254740993`, `"generation":1`, `"creationTimestamp":"2020-01-02T03:04:05Z"`, `"deletionTimestamp":"2020-01-02T03:04:05Z","deletionGracePeriodSeconds":0`, `"deletionTimestamp":"2020-01-02T03:04:05Z","deletionGracePeriodSeconds":30`, `"generateName":"w-"`, `"selfLink":"/x"`,
	`"labels":{"a":"b"}`, `"labels":{"a":"","x.io/名":"1"}`, `"annotations":{"a":"b"}`, `"annotations":{"a":""}`, `"annotations":{"kubectl.kubernetes.io/last-applied-configuration":"{\"a\":[1,2],\"b\":\"\\\"<>&\"}\n"}`, `"annotations":{"n":"名\u0000\u2028"}`, `"annotations":{"ckube.doacloud.io/cluster":"other","x":"y"}`, `"annotations":{"ckube.daocloud.io/indexes":"{}"}`,
	`"finalizers":["a","b"]`, `"ownerReferences":[{"apiVersion":"apps/v1","kind":"ReplicaSet","name":"r","uid":"u","controller":true,"blockOwnerDeletion":false}]`, `"ownerReferences":[{"apiVersion":"v1","kind":"X","name":"r","uid":"u"}]`,
	`"managedFields":[{"manager":"m","operation":"Update","apiVersion":"x.io/v1","time":"2020-01-02T03:04:05Z","fieldsType":"FieldsV1","fieldsV1":{"f:spec":{".":{},"f:x":{},"k:{\"name\":\"a\"}":{"v:1":{}}}}}]`,
}

// fill sets one leaf of a typed object, found by its number, to a value no zero value equals; the
// second result is false when there are no more leaves. depth bounds recursive types.
func fill(v reflect.Value, n *int, depth int, variant int) bool {
	if depth > 14 {
		return false
	}
	t := v.Type()
	switch t {
	case reflect.TypeOf(metav1.Time{}):
		if *n == 0 {
			v.Set(reflect.ValueOf(metav1.NewTime(time.Unix(1600000000, 0).UTC())))
			return true
		}
		*n--
		return false
	case reflect.TypeOf(metav1.MicroTime{}):
		if *n == 0 {
			v.Set(reflect.ValueOf(metav1.NewMicroTime(time.Unix(1600000000, 123456000).UTC())))
			return true
		}
		*n--
		return false
	case reflect.TypeOf(resource.Quantity{}):
		if *n == 0 {
			v.Set(reflect.ValueOf(resource.MustParse([]string{"1500m", "9223372036854775807", "0", "128Mi"}[variant%4])))
			return true
		}
		*n--
		return false
	case reflect.TypeOf(intstr.IntOrString{}):
		if *n == 0 {
			if variant%2 == 0 {
				v.Set(reflect.ValueOf(intstr.FromString("25%")))
			} else {
				v.Set(reflect.ValueOf(intstr.FromInt(7)))
			}
			return true
		}
		*n--
		return false
	case reflect.TypeOf(metav1.FieldsV1{}):
		if *n == 0 {
			v.Set(reflect.ValueOf(metav1.FieldsV1{Raw: []byte(`{"f:a":{}}`)}))
			return true
		}
		*n--
		return false
	}
	leaf := func(set func()) bool {
		if *n == 0 {
			set()
			return true
		}
		*n--
		return false
	}
	switch t.Kind() {
	case reflect.String:
		return leaf(func() {
			v.SetString([]string{"text", "<名\u2028\x00\"\\>", "7", strings.Repeat("y", 5000)}[variant%4])
		})
	case reflect.Bool:
		return leaf(func() { v.SetBool(true) })
	case reflect.Int32, reflect.Int:
		return leaf(func() { v.SetInt([]int64{7, 2147483647, -2147483648, 1000000}[variant%4]) })
	case reflect.Int64:
		return leaf(func() { v.SetInt([]int64{7, 9223372036854775807, 9007199254740993, -9223372036854775808}[variant%4]) })
	case reflect.Float64:
		return leaf(func() { v.SetFloat(1.5) })
	case reflect.Uint8:
		return leaf(func() { v.SetUint(7) })
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		// the zero value behind a pointer is a value of its own
		switch t.Elem().Kind() {
		case reflect.Bool, reflect.Int32, reflect.Int64, reflect.String:
			if *n == 0 {
				v.Set(p)
				return true
			}
			*n--
		}
		if fill(p.Elem(), n, depth+1, variant) {
			v.Set(p)
			return true
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return leaf(func() { v.SetBytes([]byte{0, 255, '<', 10}) })
		}
		e := reflect.MakeSlice(t, 1, 1)
		if fill(e.Index(0), n, depth+1, variant) {
			if variant%2 == 1 { // and an empty one behind it
				e = reflect.Append(e, reflect.Zero(t.Elem()))
			}
			v.Set(e)
			return true
		}
	case reflect.Map:
		e := reflect.New(t.Elem()).Elem()
		if fill(e, n, depth+1, variant) {
			m := reflect.MakeMap(t)
			m.SetMapIndex(reflect.ValueOf("k.io/x").Convert(t.Key()), e)
			v.Set(m)
			return true
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Name == "TypeMeta" {
				continue
			}
			if fill(v.Field(i), n, depth+1, variant) {
				return true
			}
		}
	}
	return false
}

// typed makes the document of a built-in object with leaf n set; ok is false beyond the last leaf.
func typed(ti, n, variant int) (doc string, ok bool) {
	b := builtins[ti]
	v := reflect.New(b.typ)
	if n >= 0 && !fill(v.Elem(), &n, 0, variant) {
		return "", false
	}
	v.Elem().FieldByName("Kind").SetString(b.kind)
	v.Elem().FieldByName("APIVersion").SetString(apiVersion(world.GVR(b.g, b.v, b.r)))
	v.Interface().(metav1.Object).SetName("o1")
	if b.namespaced {
		v.Interface().(metav1.Object).SetNamespace("n1")
	} else {
		v.Interface().(metav1.Object).SetNamespace("")
	}
	js, err := json.Marshal(v.Interface())
	if err != nil {
		panic(err)
	}
	return string(js), true
}

func main() {
	fams := []string{"values", "value-pairs", "metadata", "documents", "kinds", "sizes", "typed-fields", "changes"}
	if mc.IsWorker() {
		testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "worker", F: func(t *testing.T) {
			theT = t
			m := map[string]func(*mc.Local, json.RawMessage) error{"reads": mc.H(readsWorker)}
			for _, f := range fams {
				m[f] = mc.H(exec)
			}
			mc.Worker(m)
		}}}, nil, nil)
		os.Exit(0)
	}
	fam := func(name, bound string, g func(c *mc.Ctx, emit func(Case) bool)) mc.Family {
		return mc.Cases(name, mc.Opts{Bound: bound}, g, mc.Remote[Case](name, "", 60*time.Second))
	}
	mc.JudgeHangs = true
	mc.Main(mc.Def{ID: "C04",
		Oracle: "the reported JSON document itself, compared member by member with exact numbers; bookkeeping annotations apart",
		Assume: []string{"built-in objects are reported as an API server of the Kubernetes version ckube is built with writes them", "JSON documents have no duplicate members and valid Unicode", "an absent and a null creationTimestamp are the same"},
		Quick:  100 * time.Second, Long: 780 * time.Second,
		Families: []mc.Family{
			fam("values", fmt.Sprintf("every one of %d JSON values in each of %d places of a custom object, added and modified", len(values), len(places)), func(c *mc.Ctx, emit func(Case) bool) {
				for _, v := range values {
					for _, p := range places {
						for _, mod := range []bool{false, true} {
							if !emit(Case{T: -1, Docs: []string{custom(fmt.Sprintf(p, v), "")}, Mod: mod}) {
								return
							}
						}
					}
				}
			}),
			fam("value-pairs", "every pair of the values (long ones apart) side by side", func(c *mc.Ctx, emit func(Case) bool) {
				for _, a := range values {
					for _, b := range values {
						if len(a)+len(b) > 1000 {
							continue
						}
						if !emit(Case{T: -1, Docs: []string{custom(fmt.Sprintf(`"spec":{"a":%s,"b":[%s,%s]},"b":%s`, a, b, a, b), "")}}) {
							return
						}
					}
				}
			}),
			fam("metadata", fmt.Sprintf("every pair of %d metadata members, in custom and built-in objects", len(metas)), func(c *mc.Ctx, emit func(Case) bool) {
				for i, a := range metas {
					for _, b := range metas[i:] {
						ka, kb := strings.SplitN(a, ":", 2)[0], strings.SplitN(b, ":", 2)[0]
						m := a
						if a == "" || ka != kb && !(strings.Contains(a, "deletion") && strings.Contains(b, "deletion")) {
							m = strings.Trim(a+","+b, ",")
						} else if a != b {
							continue
						}
						if !emit(Case{T: -1, Docs: []string{custom(`"spec":{"x":1}`, m)}}) {
							return
						}
						pod := strings.NewReplacer(`x.io/v1","kind":"Widget`, `v1","kind":"Pod`).Replace(custom(`"spec":{"containers":[{"name":"c","resources":{}}]},"status":{}`, m))
						if !emit(Case{T: 0, Docs: []string{pod}}) {
							return
						}
					}
				}
			}),
			fam("documents", "custom objects of unusual shape", func(c *mc.Ctx, emit func(Case) bool) {
				for _, d := range []string{
					`{"apiVersion":"x.io/v1","kind":"Widget","metadata":{"name":"w"}}`,
					`{"kind":"Widget","metadata":{"name":"w"},"apiVersion":"x.io/v1"}`,
					`{"metadata":{"name":"w"},"spec":1,"kind":"Widget","apiVersion":"x.io/v1"}`,
					` { "apiVersion" : "x.io/v1" , "kind" : "Widget" , "metadata" : { "name" : "w" } , "spec" : [ ] } `,
					`{"apiVersion":"x.io/v1","kind":"Widget","metadata":{"name":"a:b.c-d"},"spec":{}}`,
					`{"apiVersion":"x.io/v1","kind":"Widget","metadata":{"name":"system:x","namespace":"kube-system"},"rules":[]}`,
				} {
					if !emit(Case{T: -1, Docs: []string{d}}) {
						return
					}
				}
			}),
			fam("kinds", fmt.Sprintf("%d further custom types: kinds that end in List, are those of built-in types or belong to a group of them, with each of the values", len(customs)), func(c *mc.Ctx, emit func(Case) bool) {
				for i := range customs {
					g, kind := Case{T: -2 - i}.gvr()
					for _, v := range values {
						for _, meta := range []string{"", `"uid":"u1","labels":{"a":"b"}`} {
							doc := strings.Replace(custom(`"spec":{"x":`+v+`},"status":{}`, meta), `"apiVersion":"x.io/v1","kind":"Widget"`, fmt.Sprintf(`"apiVersion":%q,"kind":%q`, apiVersion(g), kind), 1)
							if !emit(Case{T: -2 - i, Docs: []string{doc, strings.Replace(doc, `"x":`, `"y":`, 1)}}) {
								return
							}
						}
					}
				}
			}),
			fam("sizes", "lists, maps, texts and nesting of each size 0 to 40 and some up to 2000 in each of 14 places of metadata and content, custom and built-in", func(c *mc.Ctx, emit func(Case) bool) {
				rep := func(n int, open, one, end string) string {
					var l []string
					for i := 0; i < n; i++ {
						l = append(l, strings.ReplaceAll(one, "#", fmt.Sprint(i)))
					}
					return open + strings.Join(l, ",") + end
				}
				for n := 0; n <= 2000; {
					text := strings.Repeat("ab名", n)
					var metaForms []string
					if n > 0 {
						metaForms = []string{
							rep(n, `"labels":{`, `"l#":"v#"`, "}"), rep(n, `"annotations":{`, `"l#":"v#"`, "}"), rep(n, `"finalizers":[`, `"x.io/f#"`, "]"),
							rep(n, `"ownerReferences":[`, `{"apiVersion":"v1","kind":"X","name":"r#","uid":"u#"}`, "]"),
							rep(n, `"managedFields":[`, `{"manager":"m#","operation":"Update","apiVersion":"x.io/v1","fieldsType":"FieldsV1","fieldsV1":{"f:x":{}}}`, "]"),
							`"annotations":{"a":"` + text + `"}`,
						}
					}
					for i, m := range metaForms {
						if !emit(Case{T: -1, Docs: []string{custom(`"spec":{"x":1}`, m)}, Mod: i%2 == 1}) {
							return
						}
						pod := strings.NewReplacer(`x.io/v1","kind":"Widget`, `v1","kind":"Pod`).Replace(custom(`"spec":{"containers":[{"name":"c","resources":{}}]},"status":{}`, m))
						if !emit(Case{T: 0, Docs: []string{pod}}) {
							return
						}
					}
					nested := "1"
					for i := 0; i < n && i < 200; i++ {
						nested = `{"d":` + nested + `}`
					}
					for _, v := range []string{rep(n, "[", "#", "]"), rep(n, "{", `"k#":{"v":"#"}`, "}"), `"` + text + `"`, nested, rep(n, "[", `{"a":[#]}`, "]")} {
						if !emit(Case{T: -1, Docs: []string{custom(`"spec":{"x":`+v+`}`, "")}}) {
							return
						}
					}
					pod := strings.NewReplacer(`x.io/v1","kind":"Widget`, `v1","kind":"Pod`).Replace(custom(`"spec":{"containers":`+rep(n+1, "[", `{"name":"c#","resources":{}}`, "]")+`},"status":{}`, ""))
					if !emit(Case{T: 0, Docs: []string{pod}}) {
						return
					}
					cm := strings.NewReplacer(`x.io/v1","kind":"Widget`, `v1","kind":"ConfigMap`).Replace(custom(rep(n+1, `"data":{`, `"c#":"v#"`, "}"), ""))
					if !emit(Case{T: 2, Docs: []string{cm}}) {
						return
					}
					switch {
					case n < 40:
						n++
					case n < 260:
						n += mc.Pick(c, 31, 5)
					default:
						n += mc.Pick(c, 600, 100)
					}
				}
			}),
			fam("typed-fields", fmt.Sprintf("every field of %d built-in types in turn, and none; the larger types' pod templates up to 14 levels (quick: every third field of pod templates)", len(builtins)), func(c *mc.Ctx, emit func(Case) bool) {
				for ti := range builtins {
					if doc, _ := typed(ti, -1, 0); !emit(Case{T: ti, Docs: []string{doc}}) {
						return
					}
					for n := 0; ; n++ {
						variant := n
						for k := 0; k < mc.Pick(c, 2, 4); k++ {
							doc, ok := typed(ti, n, variant+k)
							if !ok {
								n = -2
								break
							}
							if ti > 0 && strings.Contains(doc, `"template":`) && n%3 != 0 && !c.Thorough() {
								break
							}
							if !emit(Case{T: ti, Docs: []string{doc}, Mod: n%2 == 1}) {
								return
							}
						}
						if n < 0 {
							break
						}
					}
				}
			}),
			fam("changes", "every ordered pair of 60 documents as successive versions: nothing of the earlier one remains", func(c *mc.Ctx, emit func(Case) bool) {
				var docs []string
				for i, v := range values {
					if len(v) < 1000 && i%3 == 0 {
						docs = append(docs, custom(fmt.Sprintf(places[i%len(places)], v), metas[i%len(metas)]))
					}
				}
				for i, a := range docs {
					for j, b := range docs {
						if i != j && !emit(Case{T: -1, Docs: []string{a, b}}) {
							return
						}
					}
				}
				docs = nil
				for n := 0; n < mc.Pick(c, 200, 900); n += mc.Pick(c, 10, 7) {
					if d, ok := typed(0, n, n); ok {
						docs = append(docs, d)
					}
				}
				for i, a := range docs {
					for j, b := range docs {
						if i != j && !emit(Case{T: 0, Docs: []string{a, b}}) {
							return
						}
					}
				}
			}),
			mc.Cases("reads", mc.Opts{Bound: fmt.Sprintf("all sequences of up to 3 (thorough 4) of %d reads, then every read compared with a fresh server's answer", len(reads))},
				func(c *mc.Ctx, emit func(Reads) bool) {
					for n := 0; n <= mc.Pick(c, 3, 4); n++ {
						if !mc.Words(len(reads), n, func(w []int) bool {
							for _, t := range []int{-1, 0} {
								if !emit(Reads{T: t, Ops: w}) {
									return false
								}
							}
							return true
						}) {
							return
						}
					}
				}, mc.Remote[Reads]("reads", "", 60*time.Second)),
		},
	})
}
